// P06: the frames of the occupancy map.
#include "vp.h"
#include "core/base.h"
#include "state_validator/occupancy_map.h"
using namespace Planner;

struct Map : OccupancyMap {
	Map(float r) :
		OccupancyMap(r) { }
	bool IsOccupied(const GridCellPosition&) override { return false; }
};

static constexpr double TOL = 1e-4;
static bool closeP(const Point2d& a, const Point2d& b) { return vp_close(a.x(), b.x(), TOL) & vp_close(a.y(), b.y(), TOL); }

extern "C" void frames()
{
	static const float RES[] = { 0.5f, 0.1f, 1.0f, 0.3f };
	static const float LEN[] = { 1.0f, 0.7f, 2.5f, 0.3f };
	double res = RES[vp_pick("resolution", 4)];
	double w = LEN[vp_pick("width", 4)], h = LEN[vp_pick("height", 4)];
	double ox = vp_real("ox", -10, 10), oy = vp_real("oy", -10, 10);
	Map m((float)res);
	Point2d o(ox, oy);
	switch (vp_pick("order", 3)) {
	case 0:
		m.SetPosition(o);
		m.InitializeSize(w, h);
		break;
	case 1:
		m.InitializeSize(w, h);
		m.SetPosition(o);
		vp_reach("moved-after-sizing");
		break;
	case 2:
		m.SetPosition({ -3.25, 7.5 });
		m.InitializeSize(h, w);
		m.SetPosition(o);
		m.InitializeSize(w, h);
		break;
	}
	int R = m.Rows(), C = m.Columns();
	// the grid covers the requested area and nothing more than a partial cell
	vp_assert(vp_leq(w, R * res, TOL) & vp_leq((R - 1) * res, w, TOL) & (R >= 1), "rows-cover-width");
	vp_assert(vp_leq(h, C * res, TOL) & vp_leq((C - 1) * res, h, TOL) & (C >= 1), "columns-cover-height");
	vp_assert(m.GetPosition().x() == ox && m.GetPosition().y() == oy, "position");
	// grid origin in the world
	double gx = ox - w / 2, gy = oy - h / 2;

	// any world point
	double x = vp_real("x", -20, 20), y = vp_real("y", -20, 20);
	Point2d p(x, y);
	auto cell = m.WorldPositionToGridCell(p, false);
	auto cell2 = m.WorldPositionToGridCell(x, y, false);
	vp_assert((cell.row == cell2.row) & (cell.col == cell2.col), "overload-world-to-cell");
	double cx = gx + cell.row * res, cy = gy + cell.col * res;
	vp_assert(vp_leq(cx, x, TOL) & vp_leq(x, cx + res, TOL) & vp_leq(cy, y, TOL) & vp_leq(y, cy + res, TOL), "point-in-its-cell");
	vp_assert(closeP(m.GridCellToWorldPosition(cell), { cx, cy }), "cell-to-world");
	vp_assert(closeP(m.GridCellToWorldPosition(cell.row, cell.col), { cx, cy }), "overload-cell-to-world");
	auto corner = m.GridCellToLocalPosition(cell);
	vp_assert(closeP(corner, { cx - ox, cy - oy }), "cell-to-local");
	vp_assert(closeP(m.GridCellToLocalPosition(cell.row, cell.col), corner), "overload-cell-to-local");

	// inside iff in the extent of the grid
	bool in = m.IsInsideMap(p);
	double ex = gx + R * res, ey = gy + C * res;
	if (in) {
		vp_reach("inside");
		vp_assert(vp_leq(gx, x, TOL) & vp_leq(x, ex, TOL) & vp_leq(gy, y, TOL) & vp_leq(y, ey, TOL), "inside-is-in-extent");
	} else {
		vp_reach("outside");
		vp_assert(vp_leq(x, gx, TOL) | vp_leq(ex, x, TOL) | vp_leq(y, gy, TOL) | vp_leq(ey, y, TOL), "in-extent-is-inside");
	}
	auto b = m.WorldPositionToGridCell(p), b2 = m.WorldPositionToGridCell(x, y);
	bool cin = (cell.row >= 0) & (cell.row < R) & (cell.col >= 0) & (cell.col < C);
	vp_assert(m.IsInsideMap(cell) == cin, "cell-inside");
	vp_assert(in == cin, "point-inside-iff-cell-inside");
	vp_assert(b.row == vp_itei(cin, cell.row, -1) && b.col == vp_itei(cin, cell.col, -1), "bounded-cell");
	vp_assert((b.row == b2.row) & (b.col == b2.col), "overload-bounded-cell");

	// local frame
	auto l = m.WorldPositionToLocalPosition(p), l2 = m.WorldPositionToLocalPosition(x, y);
	vp_assert(closeP(l, { x - ox, y - oy }) & closeP(l2, l), "world-to-local");
	vp_assert(closeP(m.LocalPositionToWorldPosition(l), p), "local-world-round-trip");
	vp_assert(closeP(m.LocalPositionToWorldPosition(l.x(), l.y()), p), "overload-local-to-world");
	// the cell through the local frame is the same one, away from cell borders
	bool interior = (x > cx + TOL) & (x < cx + res - TOL) & (y > cy + TOL) & (y < cy + res - TOL);
	auto lc = m.LocalPositionToGridCell(l, false), lc2 = m.LocalPositionToGridCell(l.x(), l.y(), false);
	auto lb = m.LocalPositionToGridCell(l), lb2 = m.LocalPositionToGridCell(l.x(), l.y());
	vp_assert(!interior | ((lc.row == cell.row) & (lc.col == cell.col)), "local-to-cell");
	vp_assert(!interior | ((lb.row == b.row) & (lb.col == b.col)), "local-to-bounded-cell");
	vp_assert((lc.row == lc2.row) & (lc.col == lc2.col) & (lb.row == lb2.row) & (lb.col == lb2.col), "overload-local-to-cell");
}

// every cell is reached from its interior
extern "C" void cells()
{
	static const float RES[] = { 0.5f, 0.1f, 1.0f };
	double res = RES[vp_pick("resolution", 3)];
	Map m((float)res);
	m.SetPosition({ vp_real("ox", -10, 10), vp_real("oy", -10, 10) });
	m.InitializeSize(2.0f, 3.0f);
	int r = vp_int("row", -5, 40), c = vp_int("col", -5, 40);
	double fx = vp_real("fx", 0.001, 0.999), fy = vp_real("fy", 0.001, 0.999);
	auto k = m.GridCellToWorldPosition(r, c);
	auto b = m.WorldPositionToGridCell(k.x() + fx * res, k.y() + fy * res, false);
	vp_assert((b.row == r) & (b.col == c), "cell-round-trip");
	auto l = m.GridCellToLocalPosition(r, c);
	auto e = m.LocalPositionToGridCell(l.x() + fx * res, l.y() + fy * res, false);
	vp_assert((e.row == r) & (e.col == c), "local-cell-round-trip");
	vp_assert(m.IsInsideMap(GridCellPosition(r, c)) == ((r >= 0) & (r < m.Rows()) & (c >= 0) & (c < m.Columns())), "cell-inside");
	vp_reach("end");
}
