// P04: parent/child links stay consistent under every history of structural
// operations on nodes.
#include "vp.h"
#include "utils/node.h"
using namespace Planner;

#ifndef H_K
#define H_K 4
#endif
#ifndef H_OPS
#define H_OPS 3
#endif
static constexpr int K = H_K, OPS = H_OPS;
using Nd = Node<int>;

static Nd* node[K];
static int par[K]; // model: parent index, -1 root, -2 detached (owned by us)
static Scope<Nd> owned[K];
static Scope<Nd> root;

static bool isAnc(int a, int b) // a is a strict ancestor of b
{
	for (int p = par[b]; p >= 0; p = par[p])
		if (p == a)
			return true;
	return false;
}

static void checkAll()
{
	int reach = 0;
	for (int i = 0; i < K; i++) {
		Nd* n = node[i];
		if (!n)
			continue;
		vp_assert(n->GetParent() == (par[i] >= 0 ? node[par[i]] : nullptr), "parent");
		vp_assert(**n == i, "data");
		unsigned d = 0;
		for (int p = par[i]; p >= 0; p = par[p])
			d++;
		vp_assert(n->GetDepth() == d, "depth");
		int kids = 0;
		for (int j = 0; j < K; j++)
			kids += node[j] && par[j] == i;
		auto& ch = n->GetChildren();
		vp_assert((int)ch.size() == kids, "child-count");
		vp_assert(n->GetFirst() == (kids ? ch[0].get() : nullptr), "first");
		for (size_t c = 0; c < ch.size(); c++) {
			vp_assert(ch[c] != nullptr, "child-owned");
			vp_assert(ch[c]->GetParent() == n, "child-parent");
			vp_assert(ch[c]->GetPrevious() == (c ? ch[c - 1].get() : nullptr), "previous");
			vp_assert(ch[c]->GetNext() == (c + 1 < ch.size() ? ch[c + 1].get() : nullptr), "next");
		}
		for (int j = 0; j < K; j++)
			if (node[j]) {
				vp_assert(n->IsDescendantOf(node[j]) == isAnc(j, i), "descendant");
				vp_assert(n->IsAncestorOf(node[j]) == isAnc(i, j), "ancestor");
			}
		// traversals from every root visit the subtree once, parents first / last
		if (par[i] < 0) {
			bool pre[K] = {}, post[K] = {};
			int cnt = 0, cnt2 = 0;
			n->PreOrderTraversal([&](const Nd& x) {
				int v = *x;
				vp_assert(v >= 0 && v < K && !pre[v], "preorder-once");
				if (par[v] >= 0)
					vp_assert(pre[par[v]], "preorder-parent-first");
				pre[v] = true;
				cnt++;
			});
			n->PostOrderTraversal([&](const Nd& x) {
				int v = *x;
				vp_assert(v >= 0 && v < K && !post[v], "postorder-once");
				if (par[v] >= 0)
					vp_assert(!post[par[v]], "postorder-parent-last");
				post[v] = true;
				cnt2++;
			});
			int want = 1;
			for (int j = 0; j < K; j++)
				want += node[j] && isAnc(i, j);
			vp_assert(cnt == want && cnt2 == want, "traversal-complete");
		}
	}
}

extern "C" void harness()
{
	for (int i = 0; i < K; i++)
		node[i] = nullptr, par[i] = -1, owned[i].reset();
	root = makeScope<Nd>(0);
	node[0] = root.get();
	par[0] = -1;
	// every tree shape on the first K-1 nodes
	for (int i = 1; i < K - 1; i++) {
		par[i] = vp_pick("shape", i);
		node[i] = node[par[i]]->AddChild(makeScope<Nd>(i));
	}
	// the last one starts detached
	owned[K - 1] = makeScope<Nd>(K - 1);
	node[K - 1] = owned[K - 1].get();
	par[K - 1] = -2;
	checkAll();
	int rt = 0;
	for (int o = 0; o < OPS; o++) {
		int op = vp_pick("op", 4);
		int a = vp_pick("a", K), b = vp_pick("b", K);
		// detached subtree roots
		bool da = par[a] == -2, db = par[b] == -2;
		if (op == 0) { // attach the detached a under b
			if (!da || a == b || isAnc(a, b))
				return;
			Nd* r = node[b]->AddChild(std::move(owned[a]));
			vp_assert(r == node[a], "addchild-returns-child");
			par[a] = b;
			vp_reach("attach");
		} else if (op == 1) { // detach a from its parent
			if (par[a] < 0 || b != 0)
				return;
			owned[a] = node[par[a]]->RemoveChild(node[a]);
			vp_assert(owned[a].get() == node[a], "removechild-returns-child");
			par[a] = -2;
			vp_reach("detach");
		} else if (op == 2) { // replace a by the detached b
			if (par[a] < 0 || !db || isAnc(b, a))
				return;
			bool leaf = true;
			for (int j = 0; j < K; j++)
				leaf = leaf && par[j] != b;
			bool adopt = vp_flag("adopt");
			if (adopt && !leaf)
				return; // unspecified what happens with the children of the newcomer
			int pa = par[a];
			// position among the siblings is kept
			size_t pos = 0;
			while (node[pa]->GetChildren()[pos].get() != node[a])
				pos++;
			owned[a] = node[pa]->ReplaceChild(node[a], std::move(owned[b]), adopt);
			vp_assert(owned[a].get() == node[a], "replace-returns-removed");
			vp_assert(node[pa]->GetChildren()[pos].get() == node[b], "replace-in-place");
			par[a] = -2;
			par[b] = pa;
			if (adopt)
				for (int j = 0; j < K; j++)
					if (par[j] == a)
						par[j] = b;
			vp_reach("replace");
		} else { // reparent inside the tree
			int ra = a, rb = b;
			while (par[ra] >= 0)
				ra = par[ra];
			while (par[rb] >= 0)
				rb = par[rb];
			if (a == b || ra != rt || rb != rt)
				return;
			Nd::Reparent(node[a], node[b], root);
			if (isAnc(a, b)) {
				par[b] = par[a];
				vp_reach("reparent-inverted");
				if (par[a] < 0)
					rt = b;
			} else
				vp_reach("reparent");
			par[a] = b;
			vp_assert(root.get() == node[rt], "root");
		}
		checkAll();
	}
	vp_reach("end");
	for (int i = 0; i < K; i++)
		owned[i].reset();
	root.reset();
}
