// P10: validity of states and paths on an occupancy map.
#include "vp.h"
#include "core/base.h"
#include "state_space/state_space_se2.h"
#include "state_validator/obstacle.h"
#include "state_validator/obstacle_list_occupancy_map.h"
#include "state_validator/state_validator_occupancy_map.h"
using namespace Planner;

#ifdef H_HAIRPIN
static constexpr float RES = 0.125f;
static constexpr double LX = 2.5, LY = 2.5, LT = 1.0; // half extents of the state space
static constexpr int ROWS = 40, COLS = 40;
#else
static constexpr float RES = 0.25f;
static constexpr double LX = 2.0, LY = 0.5, LT = 1.0; // half extents of the state space
static constexpr int ROWS = 16, COLS = 4;
#endif
#ifdef H_HAIRPIN
static constexpr float INTERP = 0.0625f;
#else
static constexpr float INTERP = 0.25f;
#endif
static constexpr double TOL = 1e-4;

struct World {
	Ref<StateSpaceSE2> space;
	Ref<ObstacleListOccupancyMap> map;
	Ref<StateValidatorOccupancyMap> val;
	int orow, ocol; // obstacle cell, or -1
	double ox, oy;
	World()
	{
		space = makeRef<StateSpaceSE2>(Pose2d(-LX, -LY, -LT), Pose2d(LX, LY, LT));
		map = makeRef<ObstacleListOccupancyMap>(RES);
#if defined(H_HAIRPIN)
		static const int COMBO[][3] = { { 1, 0, 1 }, { 0, 1, 1 }, { 1, 2, 2 } };
		const int* combo = COMBO[vp_pick("world", 3)];
		bool moved = combo[0];
		int k = combo[1], safe = combo[2];
#elif defined(H_FEW)
		// a few combinations of position, obstacle and safe radius
		static const int COMBO[][3] = { { 0, 0, 1 }, { 1, 1, 0 }, { 1, 2, 1 }, { 0, 2, 2 }, { 1, 1, 2 } };
		const int* combo = COMBO[vp_pick("world", 5)];
		bool moved = combo[0];
		int k = combo[1], safe = combo[2];
#else
		bool moved = vp_flag("moved");
		int k = vp_pick("obstacle", 4), safe = vp_pick("safe", 3);
#endif
		ox = moved ? 10 : 0;
		oy = moved ? -3 : 0;
		map->SetPosition({ ox, oy });
		val = makeRef<StateValidatorOccupancyMap>(space, map);
		vp_assert((int)map->Rows() == ROWS && (int)map->Columns() == COLS, "map-covers-space");
#ifdef H_HAIRPIN
		static const int OR[] = { -1, 19, 12 }, OC[] = { -1, 20, 20 };
#else
		static const int OR[] = { -1, 0, 7, 13 }, OC[] = { -1, 3, 1, 0 };
#endif
		orow = OR[k];
		ocol = OC[k];
		if (k > 0) {
			auto o = makeRef<Obstacle>();
			o->SetShape(makeRef<PolygonShape>(std::vector<Point2d> { { -LX + (orow + 0.5) * RES, -LY + (ocol + 0.5) * RES } }));
			o->SetPose({ ox, oy, 0 });
			map->AddObstacle(o);
		}
		map->Update();
		static const float SAFE[] = { 0.0f, 0.3125f, 1.0f, 1.5f };
		val->minSafeRadius = SAFE[safe];
		val->minPathInterpolationDistance = INTERP;
	}
	double clearance(int r, int c) const
	{
		if (orow < 0)
			return 1e9;
		return std::sqrt((double)((r - orow) * (r - orow) + (c - ocol) * (c - ocol))) * RES;
	}
	// in a cell with less clearance than that; cells shrunk by tol, up to m cells off the map
	bool within(double lx, double ly, double need, int m, double tol) const
	{
		bool in = false;
		for (int c = -m; c < COLS + m; c++) {
			int r0 = 99, r1 = -99; // contiguous rows
			for (int r = -m; r < ROWS + m; r++)
				if (clearance(r, c) < need) {
					r0 = r < r0 ? r : r0;
					r1 = r;
				}
			if (r0 <= r1)
				in |= (lx >= -LX + r0 * RES + tol) & (lx <= -LX + (r1 + 1) * RES - tol) & (ly >= -LY + c * RES + tol) & (ly <= -LY + (c + 1) * RES - tol);
		}
		return in;
	}
	// specification of a valid state; rounding at the borders is left open through tol
	bool valid(double x, double y, double th, double tol) const
	{
		double lx = x - ox, ly = y - oy;
		bool in = (lx >= -LX - tol) & (lx <= LX + tol) & (ly >= -LY - tol) & (ly <= LY + tol) & (th >= -LT - tol) & (th <= LT + tol);
		bool clear = !within(lx, ly, val->minSafeRadius - 1e-6, 0, tol);
		return in & clear;
	}
	// at least that clear, up to rounding
	bool clearOf(double x, double y, double need) const
	{
		double lx = x - ox, ly = y - oy;
		return !within(lx, ly, need, 1, vp_tol(TOL));
	}
};

extern "C" void states()
{
	World w;
	double x = vp_real("x", -14, 14), y = vp_real("y", -5, 5), th = vp_real("theta", -3.1, 3.1);
	bool got = w.val->IsStateValid(Pose2d(x, y, th));
	if (got) {
		vp_reach("valid");
		vp_assert(w.valid(x, y, th, vp_tol(TOL)), "valid-is-free");
	} else {
		vp_reach("invalid");
		vp_assert(!w.valid(x, y, th, -vp_tol(TOL)), "free-is-valid");
	}
}

// straight path in a fixed direction, and back again if folded, that remembers what was asked
struct Line : PathSE2Base {
	double dx, dy, dt;
	mutable double asked[64];
	mutable int n = 0;
	bool folded;
	Line(Pose2d init, double length, double dx, double dy, double dt, bool folded = false) :
		PathSE2Base(init, length), dx(dx), dy(dy), dt(dt), folded(folded)
	{
		m_final = at(1);
	}
	Pose2d at(double r) const
	{
		Pose2d p;
		if (folded)
			r = vp_ite(r <= 0.5, r, 1 - r);
		p.x() = m_init.x() + r * m_length * dx;
		p.y() = m_init.y() + r * m_length * dy;
		p.theta = m_init.theta + r * m_length * dt;
		return p;
	}
	Pose2d Interpolate(double r) const override
	{
		vp_assert((r >= -1e-9) & (r <= 1 + 1e-6), "ratio-in-range");
		if (n < 64)
			asked[n++] = r;
		return at(r);
	}
	void Truncate(double) override { }
};

static void judge(World& w, Line& p, double L);

extern "C" void hairpin()
{
	World w;
	static const double DX[] = { 1, -1, 0, 0 }, DY[] = { 0, 0, 1, -1 };
	int d = vp_pick("direction", 4);
	bool folded = vp_flag("folded");
	// any place along the way on the middle lane or beside it
	double s = vp_real("s", -2.6, 2.6), lane = 0.0625 - 0.5 * vp_pick("lane", 2);
	double L = folded ? 1.5 : 1.3;
	Line p(Pose2d((d < 2 ? s : lane) + w.ox, (d < 2 ? lane : s) + w.oy, 0), L, DX[d], DY[d], 0, folded);
	judge(w, p, L);
}

extern "C" void paths()
{
	World w;
	static const double LEN[] = { 0, 1.125, 2.5, 0.375 }, DX[] = { 1, -1, 0, 0.75 }, DY[] = { 0, 0, 1, -0.5 };
#ifdef H_FULL
	double L = LEN[vp_pick("length", 4)];
	bool turning = vp_flag("turning");
	int d = vp_pick("direction", 4);
#else
	static const int KIND[][2] = { { 0, 0 }, { 1, 0 }, { 2, 1 }, { 1, 2 }, { 3, 3 } };
	const int* kind = KIND[vp_pick("path", 5)];
	double L = LEN[kind[0]];
	int d = kind[1];
	bool turning = false;
#endif
	double lx = vp_real("x", -2.3, 2.3), ly = vp_real("y", -0.6, 0.6);
	turning |= d == 0;
	double th = turning ? vp_real("theta", -1.2, 1.2) : 0.25;
	Line p(Pose2d(lx + w.ox, ly + w.oy, th), L, DX[d], DY[d], turning ? 0.5 : 0.0);
	judge(w, p, L);
}

static void judge(World& w, Line& p, double L)
{
	float last = -7;
	bool ok = w.val->IsPathValid(p, &last);
	auto valid = [&](double r, double tol) {
		auto s = p.at(r);
		return w.valid(s.x(), s.y(), s.theta, tol);
	};
	// everything up to a valid end keeps the clearance, up to the interpolation distance and a cell
	auto between = [&](double q) {
		auto s = p.at(q);
		double slack = INTERP + 1.4143 * RES;
		double sx = s.x() - w.ox, sy = s.y() - w.oy;
		vp_assert((sx >= -LX - slack) & (sx <= LX + slack) & (sy >= -LY - slack) & (sy <= LY + slack), "between-in-bounds");
		vp_assert(w.clearOf(s.x(), s.y(), w.val->minSafeRadius - slack - 1e-6), "between-clear");
	};
	if (ok) {
		vp_reach("path-valid");
		vp_assert(last == 1.0f, "last-of-valid-path");
		vp_assert(valid(0, vp_tol(TOL)), "initial-state-valid");
		vp_assert(valid(1, vp_tol(TOL)), "final-state-valid");
		between(vp_real("q", 0, 1));
	} else {
		vp_reach("path-invalid");
		// some state that was looked at (or the final one) is really invalid
		bool bad = !valid(1, -vp_tol(TOL)) | !valid(0, -vp_tol(TOL));
		for (int i = 0; i < p.n; i++)
			bad |= !valid(p.asked[i], -vp_tol(TOL));
		vp_assert(bad, "rejected-path-has-invalid-state");
		vp_assert((last >= 0) & (last <= 1), "last-in-range");
		if (L > 0) {
			// the last valid state, unless the path does not even start validly
			bool start = valid(0, -vp_tol(TOL));
			vp_assert(valid(last, vp_tol(TOL)) | !start, "last-is-valid");
			for (int i = 0; i < p.n; i++)
				vp_assert((p.asked[i] <= last + vp_tol(1e-6)) | !valid(p.asked[i], -vp_tol(TOL)), "no-valid-state-after-last");
			vp_reach("path-cut");
		}
	}
	bool again = w.val->IsPathValid(p);
	vp_assert(again == ok, "same-without-last");
}

// the overload returning a state
extern "C" void overload()
{
	World w;
	double lx = vp_real("x", -1.9, 1.9);
	Line p(Pose2d(lx + w.ox, w.oy, 0), 1.1, 1, 0, 0);
	float last = -7;
	StateValidatorSE2Base& v = *w.val;
	bool ok = v.IsPathValid(p, &last);
	Pose2d state;
	state.x() = -77;
	bool ok2 = v.IsPathValid(p, &state);
	vp_assert(ok == ok2, "overload-same");
	auto s = p.at(last);
	vp_assert(vp_close(state.x(), s.x(), 1e-4) & vp_close(state.y(), s.y(), 1e-4) & vp_close(state.theta, s.theta, 1e-4), "overload-state");
	vp_reach("end");
}
