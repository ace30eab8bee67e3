// P07: obstacle outlines drawn into the grid.
#include "vp.h"
#include "core/base.h"
#include "state_validator/obstacle.h"
#include "state_validator/occupancy_map.h"
using namespace Planner;

#ifndef H_R
#define H_R 4
#endif
#ifndef H_C
#define H_C 4
#endif
#ifndef H_NV
#define H_NV 2
#endif
#ifndef H_LO
#define H_LO -1
#endif
#ifndef H_HI
#define H_HI 4
#endif
static constexpr int R = H_R, C = H_C, NV = H_NV, LO = H_LO, HI = H_HI, SPAN = HI - LO;

struct Map : OccupancyMap {
	Map(float r) :
		OccupancyMap(r) { }
	bool IsOccupied(const GridCellPosition&) override { return false; }
};

static int iabs(int a) { return vp_itei(a < 0, -a, a); }
static int imin(int a, int b) { return vp_itei(a < b, a, b); }
static int imax(int a, int b) { return vp_itei(a < b, b, a); }

static void addCells(bool (&S)[R][C], const std::vector<GridCellPosition>& cells)
{
	for (auto& k : cells)
		for (int r = 0; r < R; r++)
			for (int c = 0; c < C; c++)
				S[r][c] |= (k.row == r) & (k.col == c);
}
static bool at(const bool (&S)[R][C], int r, int c) // false outside
{
	bool v = false;
	for (int i = 0; i < R; i++)
		for (int j = 0; j < C; j++)
			v |= (r == i) & (c == j) & S[i][j];
	return v;
}

// straight edges between any two cells
extern "C" void outline()
{
	Map m(1.0f);
	m.SetPosition({ R / 2.0, C / 2.0 });
	m.InitializeSize(R, C); // world origin = corner of cell (0,0)
	static const double OFF[] = { 0.125, 0.875 };
	double off = OFF[vp_pick("offset", 2)];
	int vr[NV], vc[NV];
	std::vector<Point2d> v;
	const int pr = 1, pc = -2;
	for (int i = 0; i < NV; i++) {
#ifdef H_INSIDE // only the last vertex may be off the map
		vr[i] = i == 0 ? 0 : i < NV - 1 ? vp_int("row", 0, R - 1) : vp_int("row", LO, HI);
		vc[i] = i == 0 ? 1 : i < NV - 1 ? vp_int("col", 0, C - 1) : vp_int("col", LO, HI);
#else
		vr[i] = vp_int("row", LO, HI);
		vc[i] = vp_int("col", LO, HI);
#endif
		v.push_back({ vr[i] + off - pr, vc[i] + off - pc });
	}
	auto shape = makeRef<PolygonShape>(v);
	Obstacle o;
	o.SetShape(shape);
	o.SetPose({ (double)pr, (double)pc, 0.0 });
	auto w = o.GetBoundaryWorldPosition();
	vp_assert(w.size() == NV, "vertex-count");
	for (int i = 0; i < NV; i++)
		vp_assert((w[i].x() == vr[i] + off) & (w[i].y() == vc[i] + off), "vertex-translated");
	auto cells = o.GetBoundaryGridCellPosition(m);
	bool S[R][C] = {};
	addCells(S, cells);
	for (auto& k : cells) {
		vp_assert((k.row >= 0) & (k.row < R) & (k.col >= 0) & (k.col < C), "cells-in-map");
		// within half a cell of one of the edges
		bool near = false;
		for (int i = 0; i < NV; i++) {
			int j = (i + 1) % NV;
			int dr = vr[j] - vr[i], dc = vc[j] - vc[i];
			int mx = imax(iabs(dr), iabs(dc));
			int cross = iabs(dr * (k.col - vc[i]) - dc * (k.row - vr[i]));
			near |= (2 * cross <= mx + 1) & (k.row >= imin(vr[i], vr[j])) & (k.row <= imax(vr[i], vr[j])) & (k.col >= imin(vc[i], vc[j])) & (k.col <= imax(vc[i], vc[j]));
		}
		vp_assert(near, "cells-near-outline");
	}
	for (int i = 0; i < NV; i++) {
		int j = (i + 1) % NV;
		bool in = (vr[i] >= 0) & (vr[i] < R) & (vc[i] >= 0) & (vc[i] < C);
		vp_assert(!in | at(S, vr[i], vc[i]), "vertices-drawn");
		// a drawn cell at every step of the longer axis, or the line is out of the map there
		int dr = vr[j] - vr[i], dc = vc[j] - vc[i];
		int n = vp_concrete(imax(iabs(dr), iabs(dc)));
		bool steep = vp_concrete((int)(iabs(dc) > iabs(dr)));
		int da = steep ? dc : dr, db = steep ? dr : dc; // da = +-n
		for (int k = 0; k <= n; k++) {
			int a = (steep ? vc[i] : vr[i]) + vp_itei(da < 0, -k, k);
			bool drawn = false, out = false;
			for (int b = LO; b <= HI; b++) {
				// candidate within half a cell of the exact line
				int num = iabs(n * (b - (steep ? vr[i] : vc[i])) - k * db);
				bool cand = 2 * num <= n + 1;
				int row = steep ? b : a, col = steep ? a : b;
				drawn |= cand & at(S, row, col);
				out |= cand & ((row < 0) | (row >= R) | (col < 0) | (col >= C));
			}
			vp_assert(drawn | out, "outline-covered");
			// no gap that a diagonal move could slip through
			if (k > 0) {
				int p = (steep ? vc[i] : vr[i]) + vp_itei(da < 0, -(k - 1), k - 1);
				bool joined = false, near = false;
				for (int b = LO; b <= HI; b++) {
					int num = iabs(n * (b - (steep ? vr[i] : vc[i])) - k * db);
					bool cand = 2 * num <= n + 1;
					near |= cand & ((b <= 0) | (b >= (steep ? R : C) - 1));
					for (int e = b - 1; e <= b + 1; e++)
						joined |= cand & at(S, steep ? b : a, steep ? a : b) & at(S, steep ? e : p, steep ? p : e);
				}
				bool aout = (a < 0) | (a >= (steep ? C : R)) | (p < 0) | (p >= (steep ? C : R));
				vp_assert(joined | near | aout, "outline-connected");
			}
		}
		if (n >= 2)
			vp_reach("long-edge");
	}
	vp_reach("end");
}

// every part of a composite shape is drawn
extern "C" void composite()
{
	Map m(1.0f);
	m.SetPosition({ R / 2.0, C / 2.0 });
	m.InitializeSize(R, C);
	auto comp = makeRef<CompositeShape>();
	bool S[R][C] = {}, W[R][C] = {};
	Pose2d pose(vp_int("pr", -1, 1), vp_int("pc", -1, 1), 0.0);
	for (int i = 0; i < 2; i++) {
		double r = vp_int("row", 0, R - 1) + 0.5, c = vp_int("col", 0, C - 1) + 0.5;
		auto s = makeRef<PolygonShape>(std::vector<Point2d> { { r, c } });
		comp->Add(s);
		Obstacle o;
		o.SetShape(s);
		o.SetPose(pose);
		addCells(W, o.GetBoundaryGridCellPosition(m));
	}
	Obstacle o;
	o.SetShape(comp);
	o.SetPose(pose);
	addCells(S, o.GetBoundaryGridCellPosition(m));
	for (int i = 0; i < R; i++)
		for (int j = 0; j < C; j++)
			vp_assert(S[i][j] == W[i][j], "composite-is-union");
	vp_assert(o.GetBoundaryWorldPosition().size() == 2, "composite-vertices");
	vp_reach("end");
}

// vertices of the stock shapes under any pose
extern "C" void shapes()
{
	double px = vp_real("px", -10, 10), py = vp_real("py", -10, 10), th = vp_real("theta", -3.1, 3.1);
	Pose2d pose(px, py, th);
	Obstacle o;
	o.SetPose(pose);
	double ct = std::cos(th), st = std::sin(th);
	int kind = vp_pick("kind", 3);
	double a = vp_real("a", 0.1, 5), b = vp_real("b", 0.1, 5);
	int n = kind == 0 ? 4 : 3 + vp_pick("count", 4);
	if (kind == 0)
		o.SetShape(makeRef<RectangleShape>(a, b));
	else if (kind == 1)
		o.SetShape(makeRef<RegularPolygonShape>(a, n));
	else
		o.SetShape(makeRef<CircleShape>(a, n));
	auto w = o.GetBoundaryWorldPosition();
	vp_assert((int)w.size() == n, "shape-vertex-count");
	static const double ICOS[] = { 2.0, 1.4142135623730951, 1.2360679774997898, 1.1547005383792515 }; // 1 / cos(pi / n)
	for (int i = 0; i < n; i++) {
		static const double SX[] = { 0.5, -0.5, -0.5, 0.5 }, SY[] = { 0.5, 0.5, -0.5, -0.5 };
		double lx, ly; // in the frame of the obstacle
		if (kind == 0) {
			lx = SX[i] * a;
			ly = SY[i] * b;
			vp_reach("rectangle");
		} else {
			double rad = kind == 1 ? a : a * ICOS[n - 3]; // the circle is inside its polygon
			lx = rad * std::cos(2 * M_PI * i / n);
			ly = rad * std::sin(2 * M_PI * i / n);
			vp_reach(kind == 1 ? "regular" : "circle");
		}
		vp_assert(vp_close(w[i].x(), px + ct * lx - st * ly, 1e-4) & vp_close(w[i].y(), py + st * lx + ct * ly, 1e-4), kind == 0 ? "rectangle-vertices" : kind == 1 ? "polygon-vertices" : "circle-vertices");
	}
}
