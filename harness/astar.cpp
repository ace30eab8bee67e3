// P01: A* on an arbitrary directed graph with arbitrary costs and an arbitrary
// consistent heuristic finds a cheapest path or reports failure; a planner
// object can be reused.
#include "vp.h"
#include "algo/a_star.h"
using namespace Planner;

#ifndef H_N
#define H_N 4
#endif
static constexpr int N = H_N;
#ifndef H_CMAX
#define H_CMAX 10
#endif
static constexpr int CMAX = H_CMAX;
#ifndef H_HEUR
#define H_HEUR 1
#endif
static constexpr int HEUR = H_HEUR;
#ifndef H_SEARCHES
#define H_SEARCHES 1
#endif
static constexpr int SEARCHES = H_SEARCHES;
#ifndef H_PARALLEL
#define H_PARALLEL 1
#endif
static constexpr int PARALLEL = H_PARALLEL;
#ifndef H_GRAPH
#define H_GRAPH true
#endif
static constexpr bool GRAPH = H_GRAPH;
#ifndef H_ACYCLIC
#define H_ACYCLIC 0
#endif
static constexpr int ACYCLIC = H_ACYCLIC;

static const double INF = 1e6;
static bool ex[N][N][PARALLEL];
static bool known[N][N][PARALLEL], val[N][N][PARALLEL];
static double cost[N][N][PARALLEL];
static double hh[N][N]; // [goal][state]

static bool offered(int u, int v, int k)
{
	if (!known[u][v][k]) {
		known[u][v][k] = true;
		val[u][v][k] = vp_concrete((int)ex[u][v][k]) != 0;
	}
	return val[u][v][k];
}

struct Act {
	int id = -1;
};

struct Prop : AStarStatePropagator<int, Act> {
	std::vector<std::tuple<int, Act, double>> GetNeighborStates(const int& u) override
	{
		std::vector<std::tuple<int, Act, double>> r;
		vp_assert(u >= 0 && u < N, "expands-known-state");
		for (int v = 0; v < N; v++)
			for (int k = 0; k < PARALLEL; k++)
				if (offered(u, v, k))
					r.push_back({ v, Act { (u * N + v) * PARALLEL + k }, cost[u][v][k] });
		return r;
	}
};
struct Heur : AStarConcreteHeuristic<int> {
	double GetHeuristicValue(const int& s) override { return hh[m_goal][s]; }
};
struct Heur0 : AStarConcreteHeuristic<int> {
	double GetHeuristicValue(const int&) override { return 0.0; }
};

extern "C" void harness()
{
	for (int u = 0; u < N; u++)
		for (int v = 0; v < N; v++)
			for (int k = 0; k < PARALLEL; k++) {
				known[u][v][k] = false;
				ex[u][v][k] = (ACYCLIC && v <= u) ? false : vp_bool("edge");
				cost[u][v][k] = vp_intd("cost", 0, CMAX);
			}
	auto prop = makeRef<Prop>();
	Ref<AStarHeuristic<int>> heur;
	if (HEUR)
		heur = makeRef<Heur>();
	else
		heur = makeRef<Heur0>();
	AStar<int, Act, std::hash<int>, std::equal_to<int>, GRAPH> a;

	a.SetInitState(0);
	a.SetGoalState(0);
	// not initialized: failure, no path
	vp_assert(a.SearchPath() == Status::Failure, "uninitialized-fails");
	vp_assert(a.GetPath().empty(), "uninitialized-path");
	vp_assert(!a.Initialize(nullptr, heur), "null-propagator");
	vp_assert(!a.Initialize(prop, nullptr), "null-heuristic");
	vp_assert(a.SearchPath() == Status::Failure, "uninitialized-fails");
	vp_assert(a.Initialize(prop, heur), "initialize");

	for (int s = 0; s < SEARCHES; s++) {
		int init = s == 0 ? 0 : vp_pick("init", N);
		int goal = s == 0 ? (ACYCLIC ? N - 1 : vp_pick("goal", 2)) : vp_pick("goal", N);
		if (HEUR) {
			for (int u = 0; u < N; u++)
				hh[goal][u] = u == goal ? 0.0 : vp_intd("h", 0, CMAX * N);
			bool c = true;
			for (int u = 0; u < N; u++)
				for (int v = 0; v < N; v++)
					for (int k = 0; k < PARALLEL; k++)
						c &= !ex[u][v][k] | (hh[goal][u] <= cost[u][v][k] + hh[goal][v]);
			vp_assume(c);
		}
		a.SetInitState(init);
		a.SetGoalState(goal);
		Status st = a.SearchPath();
		// oracle: Bellman-Ford over the symbolic costs
		double d[N];
		for (int u = 0; u < N; u++)
			d[u] = u == init ? 0.0 : INF;
		for (int r = 0; r + 1 < N; r++) {
			double e[N];
			for (int v = 0; v < N; v++) {
				e[v] = d[v];
				for (int u = 0; u < N; u++)
					for (int k = 0; k < PARALLEL; k++)
						e[v] = vp_min(e[v], vp_ite(ex[u][v][k], d[u] + cost[u][v][k], INF));
			}
			for (int v = 0; v < N; v++)
				d[v] = e[v];
		}
		auto path = a.GetPath();
		auto acts = a.GetActions();
		if (st == Status::Success) {
			vp_reach("found");
			vp_assert(d[goal] < INF, "success-only-if-reachable");
			vp_assert(path.size() >= 1 && path.front() == init, "starts-at-init");
			vp_assert(path.back() == goal, "ends-at-goal");
			vp_assert(acts.size() + 1 == path.size(), "actions-match-states");
			double sum = 0;
			for (size_t i = 0; i + 1 < path.size(); i++) {
				int id = acts[i].id;
				int u = path[i], v = path[i + 1];
				vp_assert(u >= 0 && u < N && v >= 0 && v < N, "states-known");
				vp_assert(id / PARALLEL == u * N + v, "action-is-transition");
				int k = id % PARALLEL;
				vp_assert(ex[u][v][k], "transition-offered");
				sum += cost[u][v][k];
			}
			vp_assert(a.GetOptimalCost() == sum, "reported-cost");
			vp_assert(sum == d[goal], "optimal");
			if (path.size() > 2)
				vp_reach("multi-step");
			if (init == goal)
				vp_reach("trivial");
		} else {
			vp_reach("failed");
			vp_assert(d[goal] == INF, "complete");
			vp_assert(path.empty() && acts.empty(), "failure-path-empty");
			vp_assert(a.GetOptimalCost() == std::numeric_limits<double>::infinity(), "failure-cost-infinite");
		}
	}
}
