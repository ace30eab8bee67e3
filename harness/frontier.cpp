// P03: the frontier behaves as a priority list of unique elements, for every
// history of operations, every priority assignment and every hash.
#include "vp.h"
#include "utils/frontier.h"
using namespace Planner;

#ifndef H_KEYS
#define H_KEYS 3
#endif
static constexpr int KEYS = H_KEYS;
#ifndef H_PRE
#define H_PRE 0
#endif
static constexpr int PRE = H_PRE;
#ifndef H_OPS
#define H_OPS 4
#endif
static constexpr int OPS = H_OPS;

struct E {
	int key;
	int prio;
};
struct Cmp {
	bool reversed = false;
	bool operator()(const E& a, const E& b) const { return reversed ? b.prio < a.prio : a.prio < b.prio; }
};
struct Hsh {
	int mode = 0;
	size_t operator()(const E& e) const { return mode == 0 ? (size_t)e.key : (mode == 1 ? 7u : (size_t)(e.key & 1)); }
};
struct Eq {
	bool operator()(const E& a, const E& b) const { return a.key == b.key; }
};
using F = Frontier<E, Cmp, Hsh, Eq>;

static bool present[KEYS];
static int prio[KEYS];

static void checkAll(F& f, bool reversed)
{
	int n = 0;
	for (int k = 0; k < KEYS; k++)
		n += present[k];
	vp_assert(f.Size() == (size_t)n, "size");
	vp_assert(f.Empty() == (n == 0), "empty");
	for (int k = 0; k < KEYS; k++) {
		const E* p = f.Find(E { k, 0 });
		vp_assert((p != nullptr) == present[k], "find");
		if (p)
			vp_assert((p->key == k) & (p->prio == prio[k]), "find-element");
	}
	// iteration visits every element once, in order
	int cnt = 0;
	bool seen[KEYS] = {};
	const E* prev = nullptr;
	for (auto it = f.begin(); it != f.end(); ++it) {
		cnt++;
		vp_assert(it->key >= 0 && it->key < KEYS && present[it->key] && !seen[it->key], "iterate-unique");
		seen[it->key] = true;
		vp_assert(it->prio == prio[it->key], "iterate-element");
		if (prev)
			vp_assert(reversed ? it->prio <= prev->prio : it->prio >= prev->prio, "iterate-sorted");
		prev = &*it;
	}
	vp_assert(cnt == n, "iterate-count");
}

static void checkBest(const E& e, bool reversed)
{
	vp_assert(e.key >= 0 && e.key < KEYS && present[e.key], "top-member");
	vp_assert(e.prio == prio[e.key], "top-element");
	for (int k = 0; k < KEYS; k++)
		if (present[k])
			vp_assert(reversed ? e.prio <= prio[k] : e.prio >= prio[k], "top-best");
}

static void push(F& f, int k, bool reversed)
{
	E e { k, vp_int("prio", -1000, 1000) };
	auto [p, ok] = f.Push(e);
	vp_assert(ok == !present[k], "push-unique");
	if (!present[k]) {
		present[k] = true;
		prio[k] = e.prio;
	}
	vp_assert(p != nullptr, "push-pointer");
	vp_assert((p->key == k) & (p->prio == prio[k]), "push-element");
}

extern "C" void harness()
{
	for (int k = 0; k < KEYS; k++)
		present[k] = false, prio[k] = 0;
	bool reversed = vp_flag("reversed");
	Hsh h;
	h.mode = vp_pick("hash", 3);
	Cmp c;
	c.reversed = reversed;
	F f(c, 2, h, Eq());
	for (int i = 0; i < PRE; i++)
		push(f, i, reversed);
	for (int i = 0; i < OPS; i++) {
		int n = 0;
		for (int k = 0; k < KEYS; k++)
			n += present[k];
		int op = vp_pick("op", 4);
		if (op == 0) {
			push(f, vp_pick("key", KEYS), reversed);
			vp_reach("push");
		} else if (op == 1) {
			int k = vp_pick("key", KEYS);
			// the key decides, whatever priority the argument carries
			size_t r = f.Remove(E { k, vp_int("rprio", -1000, 1000) });
			vp_assert(r == (size_t)present[k], "remove-count");
			present[k] = false;
			vp_reach("remove");
		} else if (op == 2) {
			if (n == 0)
				return;
			E t = f.Top();
			checkBest(t, reversed);
			E e = f.Pop();
			vp_assert((e.key == t.key) & (e.prio == t.prio), "pop-is-top");
			present[e.key] = false;
			vp_reach("pop");
		} else {
			if (n == 0)
				return;
			f.Clear();
			for (int k = 0; k < KEYS; k++)
				present[k] = false;
			vp_reach("clear");
		}
	}
	checkAll(f, reversed);
	while (!f.Empty()) {
		int n = (int)f.Size();
		checkBest(f.Top(), reversed);
		E e = f.Pop();
		checkBest(e, reversed);
		present[e.key] = false;
		vp_assert((int)f.Size() == n - 1, "pop-size");
	}
	for (int k = 0; k < KEYS; k++)
		vp_assert(!present[k] && !f.Find(E { k, 0 }), "drained");
	vp_reach("end");
}
