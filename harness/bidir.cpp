// P02: bidirectional A* returns a cheapest path or reports failure, for every
// graph, every cost and every documented heuristic pair; objects can be reused.
#include "vp.h"
#include "algo/bidirectional_a_star.h"
using namespace Planner;

#ifndef H_N
#define H_N 4
#endif
#ifndef H_CMAX
#define H_CMAX 10
#endif
#ifndef H_PAIR
#define H_PAIR 1 // 0: zero, 1: any consistent pair, 2: average of two heuristics, 3: average with one shared object
#endif
#ifndef H_SEARCHES
#define H_SEARCHES 1
#endif
#ifndef H_UNDIRECTED
#define H_UNDIRECTED 0
#endif
#ifndef H_GRAPH
#define H_GRAPH true
#endif
#ifndef H_ACYCLIC
#define H_ACYCLIC 0
#endif
static constexpr int N = H_N, CMAX = H_CMAX, PAIR = H_PAIR, SEARCHES = H_SEARCHES;
static constexpr bool UND = H_UNDIRECTED;

static const double INF = 1e6;
static bool ex[N][N];
static bool known[N][N], val[N][N];
static double cost[N][N];
static double hf[N], hr[N];
static double hg[N][N]; // [goal][state]: towards goal, forward graph
static double hi[N][N]; // [goal][state]: towards goal, reversed graph

#ifdef H_TOPO
static const int topo[][2] = { H_TOPO };
#endif
/// The edge can be absent or present (-1), or is fixed.
static int fixedEdge(int u, int v)
{
	if (u == v || (H_ACYCLIC && v <= u))
		return 0;
#ifdef H_TOPO
	for (auto& e : topo)
		if ((e[0] == u && e[1] == v) || (UND && e[0] == v && e[1] == u))
			return 1;
	return 0;
#endif
	return -1;
}

static bool offered(int u, int v)
{
	if (UND && u > v) {
		int t = u;
		u = v;
		v = t;
	}
	if (!known[u][v]) {
		known[u][v] = true;
		val[u][v] = vp_concrete((int)ex[u][v]) != 0;
	}
	return val[u][v];
}

struct Prop : AStarStatePropagator<int, NullAction> {
	bool reverse;
	Prop(bool r) :
		reverse(r) { }
	std::vector<std::tuple<int, NullAction, double>> GetNeighborStates(const int& u) override
	{
		std::vector<std::tuple<int, NullAction, double>> r;
		vp_assert(u >= 0 && u < N, "expands-known-state");
		for (int v = 0; v < N; v++)
			if (reverse ? offered(v, u) : offered(u, v))
				r.push_back({ v, NullAction(), reverse ? cost[v][u] : cost[u][v] });
		return r;
	}
};
struct Table : AStarConcreteHeuristic<int> {
	double (*t)[N];
	Table(double (*t)[N]) :
		t(t) { m_goal = -1; }
	double GetHeuristicValue(const int& s) override
	{
		vp_assert(m_goal >= 0 && m_goal < N, "heuristic-told-its-goal");
		return t[m_goal][s];
	}
};
struct Direct : AStarConcreteHeuristic<int> {
	double* t;
	Direct(double* t) :
		t(t) { }
	double GetHeuristicValue(const int& s) override { return t[s]; }
};
using B = BidirectionalAStar<int, NullAction, std::hash<int>, std::equal_to<int>, H_GRAPH>;

static void consistent(double* h, int goal, bool reverse)
{
	bool c = true;
	for (int u = 0; u < N; u++)
		for (int v = 0; v < N; v++)
			c &= !ex[u][v] | (reverse ? h[v] <= cost[u][v] + h[u] : h[u] <= cost[u][v] + h[v]);
	vp_assume(c);
}

extern "C" void harness()
{
	for (int u = 0; u < N; u++)
		for (int v = 0; v < N; v++) {
			known[u][v] = false;
			if (UND && v < u) {
				ex[u][v] = ex[v][u];
				cost[u][v] = cost[v][u];
				continue;
			}
			int fe = fixedEdge(u, v);
			ex[u][v] = fe >= 0 ? fe == 1 : vp_bool("edge");
			cost[u][v] = fe == 0 ? 0.0 : vp_intd("cost", 0, CMAX);

			hg[u][v] = hi[u][v] = 0;
		}
	auto fp = makeRef<Prop>(false);
	auto rp = makeRef<Prop>(true);
	Ref<AStarHeuristic<int>> fh, rh;
	if (PAIR <= 1) {
		fh = makeRef<Direct>(hf);
		rh = makeRef<Direct>(hr);
	} else if (PAIR == 2)
		std::tie(fh, rh) = B::GetAverageHeuristicPair(makeRef<Table>(hg), makeRef<Table>(hi));
	else {
		auto t = makeRef<Table>(hg);
		std::tie(fh, rh) = B::GetAverageHeuristicPair(t, t);
	}
	B a;
	a.SetInitState(0);
	a.SetGoalState(1);
	vp_assert(a.SearchPath() == Status::Failure, "uninitialized-fails");
	vp_assert(a.GetPath().empty(), "uninitialized-path");
	vp_assert(!a.Initialize(fp, nullptr, fh, rh) && !a.Initialize(nullptr, rp, fh, rh) && !a.Initialize(fp, rp, nullptr, rh) && !a.Initialize(fp, rp, fh, nullptr), "null-arguments");
	vp_assert(a.Initialize(fp, rp, fh, rh), "initialize");
	bool have[N] = {};
	for (int s = 0; s < SEARCHES; s++) {
		int init = s == 0 ? 0 : vp_pick("init", N);
#ifdef H_GOAL
		int goal = H_GOAL;
#else
		int goal = s == 0 ? (H_ACYCLIC ? N - 1 : vp_pick("goal", 2)) : vp_pick("goal", N);
#endif
		if (PAIR == 0)
			for (int u = 0; u < N; u++)
				hf[u] = hr[u] = 0;
		if (PAIR == 1) {
			for (int u = 0; u < N; u++)
				hf[u] = u == goal ? 0.0 : vp_intd("h", 0, CMAX * N);
			consistent(hf, goal, false);
			for (int u = 0; u < N; u++)
				hr[u] = hf[init] - hf[u];
		}
		if (PAIR >= 2) {
			int gs[2] = { goal, init };
			for (int g : gs) {
				if (have[g])
					continue;
				have[g] = true;
				for (int u = 0; u < N; u++) {
					hg[g][u] = u == g ? 0.0 : vp_intd("hg", 0, CMAX * N);
					hi[g][u] = u == g ? 0.0 : vp_intd("hi", 0, CMAX * N);
				}
				consistent(hg[g], g, false);
				consistent(hi[g], g, true);
			}
		}
		a.SetInitState(init);
		a.SetGoalState(goal);
		Status st = a.SearchPath();
		double d[N];
		for (int u = 0; u < N; u++)
			d[u] = u == init ? 0.0 : INF;
		for (int r = 0; r + 1 < N; r++) {
			double e[N];
			for (int v = 0; v < N; v++) {
				e[v] = d[v];
				for (int u = 0; u < N; u++)
					if (u != v)
						e[v] = vp_min(e[v], vp_ite(ex[u][v], d[u] + cost[u][v], INF));
			}
			for (int v = 0; v < N; v++)
				d[v] = e[v];
		}
		auto path = a.GetPath();
		if (st == Status::Success) {
			vp_reach("found");
			vp_assert(d[goal] < INF, "success-only-if-reachable");
			vp_assert(path.size() >= 1 && path.front() == init, "starts-at-init");
			vp_assert(path.back() == goal, "ends-at-goal");
			double sum = 0;
			for (size_t i = 0; i + 1 < path.size(); i++) {
				int u = path[i], v = path[i + 1];
				vp_assert(u >= 0 && u < N && v >= 0 && v < N, "states-known");
				vp_assert(u != v, "no-repeated-state");
				vp_assert(ex[u][v], "transition-offered");
				sum += cost[u][v];
			}
			vp_assert(a.GetOptimalCost() == sum, "reported-cost");
			vp_assert(sum == d[goal], "optimal");
			if (path.size() > 2)
				vp_reach("multi-step");
			if (init == goal)
				vp_reach("trivial");
		} else {
			vp_reach("failed");
			vp_assert(d[goal] == INF, "complete");
			vp_assert(path.empty(), "failure-path-empty");
			vp_assert(a.GetOptimalCost() == std::numeric_limits<double>::infinity(), "failure-cost-infinite");
		}
	}
}
