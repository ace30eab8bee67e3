// P04: the search tree: nearest-neighbour queries, extension and rewiring over
// every history.
#include "vp.h"
#include "geometry/2dplane.h"
#include "utils/tree.h"
using namespace Planner;

#ifndef H_NPTS
#define H_NPTS 4
#endif
#ifndef H_REP
#define H_REP 1
#endif
#ifndef H_CLEARS
#define H_CLEARS 0
#endif
static constexpr int NPTS = H_NPTS, REP = H_REP;
struct Hsh {
	size_t operator()(const Point2d&) const { return 3; }
};
using Tr = Tree<Point2d, 2, int, Hsh>;
using Nd = Tr::Node;

static Nd* node[NPTS + 1];
static Point2d pos[NPTS + 1];
static int par[NPTS + 1];
static int n;

static double d2(const Point2d& a, const Point2d& b)
{
	double x = a.x() - b.x(), y = a.y() - b.y();
	return x * x + y * y;
}
static int indexOf(const Nd* p)
{
	for (int i = 0; i < n; i++)
		if (node[i] == p)
			return i;
	return -1;
}
static bool isAnc(int a, int b)
{
	for (int p = par[b]; p >= 0; p = par[p])
		if (p == a)
			return true;
	return false;
}
static void checkAll(Tr& t)
{
	vp_assert(t.Size() == (size_t)n, "size");
	for (int i = 0; i < n; i++) {
		vp_assert(t.BelongToTree(node[i]), "belongs");
		vp_assert(node[i]->GetParent() == (par[i] >= 0 ? node[par[i]] : nullptr), "parent");
		vp_assert(((*node[i])->state.x() == pos[i].x()) & ((*node[i])->state.y() == pos[i].y()), "state");
		int kids = 0;
		for (int j = 0; j < n; j++)
			kids += par[j] == i;
		vp_assert((int)node[i]->GetChildren().size() == kids, "child-count");
	}
}
static Point2d point()
{
	#ifdef H_GRID
	// corners, centre and mid-edge of a square: ties and duplicates included
	static const int P[][2] = { { 0, 0 }, { 2, 0 }, { 0, 2 }, { 1, 1 }, { 5, 4 } };
	int i = vp_pick("point", H_GRID);
	int x = P[i][0], y = P[i][1];
#else
	int x = vp_int("x", -3, 3), y = vp_int("y", -3, 3);
#endif
	return Point2d((double)x, (double)y);
}

extern "C" void harness()
{
	n = 0;
	Tr t;
	for (int round = 0; round <= H_CLEARS; round++) {
		if (round) {
			t.Clear();
			n = 0;
			vp_assert(t.Size() == 0, "cleared");
		}
		pos[0] = point();
		node[0] = t.CreateRootNode(pos[0]);
		par[0] = -1;
		n = 1;
		vp_assert(node[0] != nullptr && node[0]->GetParent() == nullptr, "root");
		int pts = round ? 1 : NPTS;
		for (int k = 0; k < pts; k++) {
			Point2d q = point();
			int src = vp_pick("source", n + 1) - 1;
			Nd* nn = t.GetNearestNode(q);
			int in = indexOf(nn);
			vp_assert(in >= 0, "nearest-member");
			double dn = d2(pos[in], q);
			for (int i = 0; i < n; i++)
				vp_assert(dn <= d2(pos[i], q), "nearest");
			Nd* r = t.Extend(q, src >= 0 ? node[src] : nullptr);
			vp_assert(r != nullptr, "extend-returns-node");
			vp_assert(((*r)->state.x() == q.x()) & ((*r)->state.y() == q.y()), "extend-state");
			int ir = indexOf(r);
			if (ir < 0) {
				for (int i = 0; i < n; i++)
					vp_assert((pos[i].x() != q.x()) | (pos[i].y() != q.y()), "duplicate-not-added");
				Nd* want = r->GetParent();
				int ip = indexOf(want);
				vp_assert(ip >= 0, "parent-member");
				if (src >= 0)
					vp_assert(ip == src, "extend-from-source");
				else
					vp_assert(d2(pos[ip], q) == dn, "extend-from-nearest");
				node[n] = r;
				pos[n] = q;
				par[n] = ip;
				n++;
				vp_reach("extended");
			} else
				vp_reach("existing");
			checkAll(t);
		}
		for (int o = 0; o < REP && !round; o++) {
			int a = vp_pick("child", n), b = vp_pick("parent", n);
			if (a == b)
				return;
			t.Reparent(node[a], node[b]);
			if (isAnc(a, b)) {
				par[b] = par[a];
				vp_reach("reparent-inverted");
			}
			par[a] = b;
			checkAll(t);
			vp_reach("reparent");
		}
		Point2d q = point();
		int kn = vp_pick("knn", n + 2);
		auto nb = t.GetNearestNodes(q, kn);
		vp_assert((int)nb.size() == (kn < n ? kn : n), "knn-count");
		bool used[NPTS + 1] = {};
		double last = -1;
		for (size_t i = 0; i < nb.size(); i++) {
			int k = indexOf(nb[i]);
			vp_assert(k >= 0, "knn-member");
			vp_assert(!used[k], "knn-distinct");
			used[k] = true;
			double d = d2(pos[k], q);
			vp_assert(d >= last, "knn-ordered");
			last = d;
		}
		if (!nb.empty())
			for (int k = 0; k < n; k++)
				if (!used[k])
					vp_assert(d2(pos[k], q) >= last, "knn-nearest");
		vp_assert(t.Size() == (size_t)n, "query-keeps-size");
		vp_reach("end");
	}
}
