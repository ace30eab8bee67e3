// P05: grid neighbourhoods and the moves offered to a grid search.
#include "vp.h"
#include "core/base.h"
#include "algo/a_star_n2.h"
#include "state_validator/occupancy_map.h"
using namespace Planner;

#ifndef H_R
#define H_R 3
#endif
#ifndef H_C
#define H_C 3
#endif
static constexpr int R = H_R, C = H_C;
static constexpr int INFC = 1000000;

struct Map : OccupancyMap {
	bool occ[R][C];
	int known[R][C];
	Map() :
		OccupancyMap(1.0f)
	{
		m_rows = R;
		m_columns = C;
		for (int r = 0; r < R; r++)
			for (int c = 0; c < C; c++)
				known[r][c] = -1;
	}
	bool IsOccupied(const GridCellPosition& cell) override
	{
		vp_assert((cell.row >= 0) & (cell.row < R) & (cell.col >= 0) & (cell.col < C), "occupancy-inside");
		int r = vp_concrete(cell.row), c = vp_concrete(cell.col);
		if (known[r][c] < 0)
			known[r][c] = vp_concrete((int)occ[r][c]);
		return known[r][c] != 0;
	}
};

static int iabs(int a) { return a < 0 ? -a : a; }

// neighbourhood of any cell of any grid
extern "C" void neighbours()
{
	int rows = vp_int("rows", 1, 6), cols = vp_int("cols", 1, 6);
	int r = vp_int("row", -2, 5), c = vp_int("col", -2, 5);
	vp_assume((r < rows) & (c < cols));
	GridCellPosition cell(r, c);
	bool valid = (r >= 0) & (c >= 0);
	vp_assert(cell.IsValid() == valid, "valid");
	auto n = cell.GetNeighbors(rows, cols);
	int want = 0;
	for (int dr = -1; dr <= 1; dr++)
		for (int dc = -1; dc <= 1; dc++)
			want += ((dr != 0) | (dc != 0)) & valid & (r + dr >= 0) & (r + dr < rows) & (c + dc >= 0) & (c + dc < cols);
	vp_assert((int)n.size() == want, "neighbour-count");
	for (size_t i = 0; i < n.size(); i++) {
		int a = n[i].row, b = n[i].col;
		vp_assert((a >= 0) & (a < rows) & (b >= 0) & (b < cols), "neighbour-inside");
		int da = a - r, db = b - c;
		vp_assert((da >= -1) & (da <= 1) & (db >= -1) & (db <= 1) & ((da != 0) | (db != 0)), "neighbour-adjacent");
		for (size_t j = 0; j < i; j++)
			vp_assert((n[j].row != a) | (n[j].col != b), "neighbour-distinct");
		vp_assert(n[i].IsAdjacentTo(cell) && cell.IsAdjacentTo(n[i]), "adjacent");
		vp_assert(n[i].IsDiagonalTo(cell) == ((da != 0) & (db != 0)), "diagonal");
		vp_assert(n[i] != cell && !(n[i] == cell), "inequality");
	}
	if (valid) {
		int e = vp_int("erow", 0, 5), f = vp_int("ecol", 0, 5);
		GridCellPosition o(e, f);
		int de = e - r, df = f - c;
		bool near = (de >= -1) & (de <= 1) & (df >= -1) & (df <= 1) & ((de != 0) | (df != 0));
		vp_assert(cell.IsAdjacentTo(o) == near, "adjacent-iff");
		vp_assert((cell == o) == ((de == 0) & (df == 0)), "equality");
		vp_assert((cell != o) == ((de != 0) | (df != 0)), "inequality-iff");
		vp_reach("valid");
	} else
		vp_reach("invalid");
}

// equal cells have equal hashes
extern "C" void hashes()
{
	int r = vp_pick("row", 4) - 1, c = vp_pick("col", 4) - 1;
	GridCellPosition a(r, c), b;
	b.row = r;
	b.col = c;
	vp_assert(a == b && std::hash<GridCellPosition>()(a) == std::hash<GridCellPosition>()(b), "hash-agrees");
	GridCellPosition none;
	vp_assert(!none.IsValid(), "default-invalid");
	vp_reach("end");
}

// moves offered to the search
extern "C" void moves()
{
	auto map = makeRef<Map>();
	for (int r = 0; r < R; r++)
		for (int c = 0; c < C; c++)
			map->occ[r][c] = vp_bool("occ");
	AStarStatePropagatorFcnN2 p(map, [](const GridCellPosition& a, const GridCellPosition& b) { return 1000.0 * a.row + 100.0 * a.col + 10.0 * b.row + b.col; });
	int r = vp_pick("row", R), c = vp_pick("col", C);
	auto n = p.GetNeighborStates({ r, c });
	bool seen[R][C] = {};
	for (auto& [s, a, cost] : n) {
		int i = s.row, j = s.col;
		vp_assert(i >= 0 && i < R && j >= 0 && j < C && !seen[i][j], "moves-distinct");
		seen[i][j] = true;
		vp_assert(cost == 1000.0 * r + 100.0 * c + 10.0 * i + j, "move-cost");
	}
	for (int i = 0; i < R; i++)
		for (int j = 0; j < C; j++) {
			bool adj = (i != r || j != c) && iabs(i - r) <= 1 && iabs(j - c) <= 1;
			if (!adj) {
				vp_assert(!seen[i][j], "move-adjacent");
				continue;
			}
			bool diag = i != r && j != c;
			bool cut = diag ? map->occ[i][c] & map->occ[r][j] : false;
			bool want = !map->occ[i][j] & !cut;
			vp_assert(seen[i][j] == want, "move-iff-free");
			if (seen[i][j] && diag)
				vp_reach("diagonal-move");
		}
	vp_reach("end");
}

// whole grid search
extern "C" void search()
{
	auto map = makeRef<Map>();
	for (int r = 0; r < R; r++)
		for (int c = 0; c < C; c++)
			map->occ[r][c] = vp_bool("occ");
	auto costFcn = [](const GridCellPosition& a, const GridCellPosition& b) { return a.row != b.row && a.col != b.col ? 14.0 : 10.0; };
	auto prop = makeRef<AStarStatePropagatorFcnN2>(map, costFcn);
	auto heur = makeRef<AStarHeuristicFcnN2>([](const GridCellPosition& a, const GridCellPosition& g) {
		int dr = iabs(a.row - g.row), dc = iabs(a.col - g.col);
		int mn = dr < dc ? dr : dc, mx = dr < dc ? dc : dr;
		return 14.0 * mn + 10.0 * (mx - mn);
	});
	int r0 = vp_pick("r0", R), c0 = vp_pick("c0", C);
	int r1 = R - 1, c1 = C - 1;
	std::vector<GridCellPosition> path;
	double cost;
	Status st;
#ifdef H_BIDIR
	auto heurR = makeRef<AStarHeuristicFcnN2>([](const GridCellPosition& a, const GridCellPosition& g) {
		int dr = iabs(a.row - g.row), dc = iabs(a.col - g.col);
		int mn = dr < dc ? dr : dc, mx = dr < dc ? dc : dr;
		return 14.0 * mn + 10.0 * (mx - mn);
	});
	auto [fh, rh] = BidirectionalAStarN2::GetAverageHeuristicPair(heur, heurR);
	BidirectionalAStarN2 a;
	vp_assert(a.Initialize(prop, prop, fh, rh), "initialize");
	// moves are symmetric only between free cells
	vp_assume(!map->occ[r0][c0] & !map->occ[r1][c1]);
#else
	AStarN2 a;
	vp_assert(a.Initialize(prop, heur), "initialize");
#endif
	a.SetInitState({ r0, c0 });
	a.SetGoalState({ r1, c1 });
	st = a.SearchPath();
	path = a.GetPath();
	cost = a.GetOptimalCost();
	// oracle: Bellman-Ford over symbolic occupancy
	int d[R][C];
	for (int r = 0; r < R; r++)
		for (int c = 0; c < C; c++)
			d[r][c] = r == r0 && c == c0 ? 0 : INFC;
	for (int k = 0; k < R * C - 1; k++) {
		int e[R][C];
		for (int r = 0; r < R; r++)
			for (int c = 0; c < C; c++) {
				e[r][c] = d[r][c];
				for (int dr = -1; dr <= 1; dr++)
					for (int dc = -1; dc <= 1; dc++) {
						int i = r + dr, j = c + dc;
						if ((!dr && !dc) || i < 0 || i >= R || j < 0 || j >= C)
							continue;
						bool cut = dr && dc ? map->occ[r][j] & map->occ[i][c] : false;
						int v = vp_itei(!map->occ[r][c] & !cut, d[i][j] + (dr && dc ? 14 : 10), INFC);
						e[r][c] = vp_itei(v < e[r][c], v, e[r][c]);
					}
			}
		for (int r = 0; r < R; r++)
			for (int c = 0; c < C; c++)
				d[r][c] = e[r][c];
	}
	if (st == Status::Success) {
		vp_assert(path.size() >= 1 && path.front() == GridCellPosition(r0, c0) && path.back() == GridCellPosition(r1, c1), "endpoints");
		double sum = 0;
		for (size_t i = 1; i < path.size(); i++) {
			auto& u = path[i - 1];
			auto& v = path[i];
			vp_assert(u.IsAdjacentTo(v), "steps-adjacent");
			vp_assert(!map->occ[v.row][v.col], "steps-free");
			if (u.row != v.row && u.col != v.col)
				vp_assert(!(map->occ[u.row][v.col] & map->occ[v.row][u.col]), "steps-not-cutting");
			sum += costFcn(u, v);
		}
		vp_assert(sum == cost, "reported-cost");
		vp_assert(d[r1][c1] == (int)sum, "shortest");
		vp_reach("found");
	} else {
		vp_assert(d[r1][c1] >= INFC, "complete");
		vp_assert(path.empty(), "failure-path-empty");
		vp_reach("blocked");
	}
}
