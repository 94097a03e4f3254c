// Vectors, matrices, quaternions, tuples, fixed arrays and the arithmetic helpers: small values
// that look as if nothing could be shared between them.
#include "slots.h"
#include "math/math.h"
#include "math/quat.h"
#include "math/mat4.h"
#include "containers/tuple.h"
#include "containers/pair.h"
#include "templates/array.h"
#include "templates/name.h"
#include "templates/functional.h"
using namespace cont;

namespace
{
	/** What a value looks like from outside; called by code under simulation. */
	template<typename T> void tell(T x) { sim::HarnessScope h; u64 b = 0; __builtin_memcpy(&b, &x, sizeof x); sim::noteState(b * 31 + sizeof x); }
	template<typename T> void tellAll(const Vec2<T> & v) { tell(v.x); tell(v.y); }
	template<typename T> void tellAll(const Vec3<T> & v) { tell(v.x); tell(v.y); tell(v.z); }
	template<typename T> void tellAll(const Vec4<T> & v) { tell(v.x); tell(v.y); tell(v.z); tell(v.w); }
	template<typename T> void tellAll(const Mat4<T> & m) { for (uint32 i = 0; i < 16; ++i) tell(m(i)); }

	/** Everything that may be asked of a vector without changing it. */
	template<typename V, typename T> void askVector(const V & a, const V & b, T s)
	{
		tellAll(a + b); tellAll(a - b); tellAll(a * b); tellAll(a / b);
		tellAll(a + s); tellAll(a - s); tellAll(a * s); tellAll(a / s);
		if constexpr (sizeof(V) < 4 * sizeof(T)) { tellAll(s + a); tellAll(s - a); tellAll(s * a); tellAll(s / a); } // does not compile for four
		tellAll(-a); tell(a & b); tell(a.getSquaredSize());
		tell(a.cmpeq(b)); tell(a.cmpne(b)); tell(a.cmplt(b)); tell(a.cmpgt(b)); tell(a.cmple(b)); tell(a.cmpge(b));
		tell((int)(a == b)); tell((int)(a != b)); tell((int)(a < b)); tell((int)(a > b)); tell((int)(a <= b)); tell((int)(a >= b));
		tell(a[0]); tell(b[1]);
	}
	template<typename V> void askLengths(const V & a) { tell(a.getSize()); tellAll(a.getNormal()); }
	/** Everything that changes one. */
	template<typename V, typename T> void workVector(V a, const V & b, T s)
	{
		a += b; tellAll(a); a *= b; tellAll(a); a -= b; tellAll(a); a /= b; tellAll(a);
		a += s; a *= s; tellAll(a); a -= s; a /= s; tellAll(a);
		a[0] = s; tellAll(a);
	}
	void askQuat(const Quat & p, const Quat & q, const vec3 & v)
	{
		tellAll(static_cast<const vec4&>(p * q)); tellAll(static_cast<const vec4&>(-p)); tellAll(p * v); tell(p.getAngle());
		float32 angle; vec3 axis; q.getAngleAndAxis(angle, axis); tell(angle); tellAll(axis);
		const auto axes = p.getAxes(); for (int i = 0; i < 3; ++i) tellAll(axes[i]);
		tellAll(q.getRight()); tellAll(q.getLeft()); tellAll(q.getUp()); tellAll(q.getDown()); tellAll(q.getForward()); tellAll(q.getBackward());
	}
	template<typename T> void askMatrix(const Mat4<T> & m, const Mat4<T> & n, uint32 i)
	{
		tell(m.cmp(n)); tell((int)(m == n)); tell((int)(m != n)); tell(m[i % 4][i / 4 % 4]); tell(n(i % 16)); tell(m(i % 4, i / 4 % 4)); tell((*n)[i % 16]);
		tellAll(Mat4<T>{m}.transpose());
	}
	typedef Tuple<int64, float32, String, uint8> Four;
	void askTuple(const Four & t) { tell(t.get<0>()); tell(t.get<1>()); tell(t.get<2>()[0]); tell(t.get<3>()); tell(t.get<float32>()); tell(t.get<String>().getLength()); tell(t.getCount()); }
	typedef Pair<int64, String> Two;
	void askPair(const Two & p) { tell(p.getKey()); tell(p.getVal().getLength()); tell(p.second[0]); }
	typedef StaticArray<int64, 5> Five;
	void askArray(const Five & a) { for (uint64 i = 0; i < a.getCount(); ++i) tell(a[i] + (*a)[4 - i]); }
	constexpr Name first = "korin", second = "::core";
	void askName(const Name & n) { const char * const s = *n; for (sizet i = 0; i < n.getLength(); ++i) { tell(n[i]); tell(s[i]); } }
	void askHelpers(i64 k, float32 f)
	{
		tell(PlatformMath::min((int64)k, (int64)7, (int64)(k / 3))); tell(PlatformMath::max((int64)k, (int64)7, (int64)(k / 3)));
		tell(PlatformMath::log2((uint64)k + 1)); tell(PlatformMath::log2((uint32)k + 1)); tell(PlatformMath::align2Up((uint64)k, 16)); tell(PlatformMath::align2Down((uint64)k, 64));
		tell(PlatformMath::pow((int64)(k % 9), (int32)(k % 5))); tell(PlatformMath::abs(-f)); tell(PlatformMath::sqrt(f)); tell(PlatformMath::sin(f)); tell(PlatformMath::cos(f));
	}

	/** One of everything. */
	struct All
	{
		vec2 a2, b2; vec3 a3, b3; vec4 a4, b4; ivec2 i2; ivec3 i3; ivec4 i4; Vec3<float64> d3;
		Quat p, q; Mat4<float32> m, n; Mat4<int32> k;
		Four t; Two two; Five five;
		static float32 f(i64 x, int i) { return (float32)((x >> i * 3) % 17 + 1) / (float32)(1 + i % 4); }
		static int32 w(i64 x, int i) { return 1 + (int32)((x >> i * 2) % 23); }
		All(i64 x)
			: a2{f(x, 0), f(x, 1)}, b2{f(x, 2), f(x, 3)}, a3{f(x, 0), f(x, 4), f(x, 5)}, b3{f(x, 1), f(x, 0), f(x, 2)}, a4{f(x, 1), f(x, 2), f(x, 3), f(x, 4)}, b4{f(x, 5)}
			, i2{w(x, 0), w(x, 1)}, i3{w(x, 2), w(x, 3), w(x, 4)}, i4{w(x, 5), w(x, 6), w(x, 7), w(x, 8)}, d3{(float64)w(x, 3), (float64)w(x, 6), 3.}
			, p{f(x, 3), vec3::up}, q{f(x, 1), vec3{f(x, 0), f(x, 1), f(x, 2)}}, k{w(x, 0), w(x, 1), w(x, 2), w(x, 3), w(x, 4), w(x, 5), w(x, 6), w(x, 7), w(x, 8), w(x, 1), w(x, 2), w(x, 9), w(x, 4), w(x, 7), w(x, 6), w(x, 3)}
			, t{(int64)x, f(x, 2), String{"a tuple's text"}, (uint8)x}, two{(int64)(x / 2), String{"a value"}}, five{(int64)w(x, 0), (int64)w(x, 1), (int64)w(x, 2), (int64)w(x, 3), (int64)w(x, 4)}
		{
			for (uint32 i = 0; i < 16; ++i) { m(i) = f(x, (int)i % 9); n(i / 4, i % 4) = f(x, (int)i % 7); }
		}
	};
	const char * const askOps[] = {"floating vectors", "integer vectors", "lengths", "quaternions", "matrices", "tuple, pair and fixed array", "names", "predefined vectors", "conversions", "helpers"};
	const int ASKS = 10;
	void ask(const All & x, const Op & o)
	{
		const float32 s = All::f(o.b, 2); const int32 i = All::w(o.b, 1);
		switch (o.code % ASKS)
		{
		case 0: askVector(x.a2, x.b2, s); askVector(x.a3, x.b3, s); askVector(x.a4, x.b4, s); tellAll(x.a3 ^ x.b3); tellAll(x.a2 ^ x.b2); break;
		case 1: askVector(x.i2, x.i2, i); askVector(x.i3, x.i3, i); askVector(x.i4, x.i4, i); tellAll(x.i3 ^ ivec3{i, 1, 2}); break;
		case 2: askLengths(x.a2); askLengths(x.a3); askLengths(x.a4); tell((int)x.a3.isNearlyZero()); break;
		case 3: askQuat(x.p, x.q, x.a3); askQuat(x.q, x.p, x.b3); break;
		case 4: askMatrix(x.m, x.n, (uint32)o.b); askMatrix(x.k, x.k, (uint32)o.b / 3); break;
		case 5: askTuple(x.t); askPair(x.two); askArray(x.five); { const Four copy{x.t}; askTuple(copy); const Two other{x.two}; askPair(other); const Five again{x.five}; askArray(again); } break;
		case 6: askName(first); { Name::Concat<first, second> both; askName(both.name); } break;
		case 7: tellAll(vec3::zero); tellAll(vec3::unit); tellAll(vec3::right); tellAll(vec3::left); tellAll(vec3::up); tellAll(vec3::down); tellAll(vec3::forward); tellAll(vec3::backward); tellAll(vec3::up ^ x.a3); break;
		case 8: tellAll(vec3{x.a2, s}); tellAll(vec4{x.a3, s}); tellAll((ivec3)x.a3); tellAll((vec3)x.i3); tellAll((vec3)x.a4); tellAll((ivec2)x.a2); break;
		case 9: askHelpers(o.b % 4000, s); break;
		}
	}
	const char * const workOps[] = {"change vectors", "change a quaternion", "change a matrix", "change a tuple", "swap"};
	void work(All & x, const Op & o)
	{
		const float32 s = All::f(o.b, 1); const int32 i = All::w(o.b, 3);
		switch (o.code % 5)
		{
		case 0: workVector(x.a2, x.b2, s); workVector(x.a3, x.b3, s); workVector(x.a4, x.b4, s); workVector(x.i3, x.i3, i); tellAll(x.a3.normalize()); tellAll(x.a4.normalize()); tellAll(x.a2.normalize()); break;
		case 1: x.p = x.p * x.q; x.q = Quat{s, x.a3.getNormal()}; tellAll(static_cast<const vec4&>(x.p)); tellAll(static_cast<const vec4&>(x.q)); break;
		case 2: x.m.transpose(); x.n = Mat4<float32>{*x.m}; x.n[i % 4][1] = s; x.k.transpose(); tellAll(x.m); tellAll(x.n); tellAll(x.k); break;
		case 3: x.t.get<0>() = o.b; x.t.get<String>() += "!"; x.two.getVal() = x.t.get<2>(); x.five[o.b % 5] = o.b; askTuple(x.t); askPair(x.two); askArray(x.five); break;
		case 4: swap(x.a3, x.b3); swap(x.m, x.n); swap(x.i4.x, x.i4.w); tellAll(x.a3); tellAll(x.n); tellAll(x.i4); break;
		}
	}
	std::string show(const Plan &, const Op & o) { return std::string(o.code >= 20 ? workOps[o.code % 5] : askOps[o.code % ASKS]) + " (values#" + std::to_string(o.b) + ")"; }
	Op one(Rng & r, int task, bool works)
	{
		Op o; o.code = works && r.chance(1, 3) ? 20 + (int)r.below(5) : (int)r.below(ASKS); o.b = (i64)r.below(1u << 30); o.task = task;
		return o;
	}
	void schedule(Rng & r, Plan & p)
	{
		sim::genEnvironment(r, p, true);
		static const i64 ests[] = {100, 300, 1000, 4000}, dens[] = {2, 5, 20, 100, 500, 3000};
		p.cfg["sched.est"] = r.pick(ests); p.cfg["sched.den"] = r.pick(dens);
		p.cfg["value"] = (i64)r.below(1u << 30);
	}
	/** Run the bodies alone, then all at once; every one must tell the same. */
	void both(const std::vector<std::function<void()>> & bodies, const char * what)
	{
		std::vector<u64> want;
		for (auto & b : bodies) { u64 v = 0; if (!sim::alone(b, v)) { sim::count("alone.fails"); return; } want.push_back(v); }
		sim::runTasks(bodies);
		for (int t = 1; t <= (int)bodies.size(); ++t)
			if (sim::observed(t) != want[t - 1]) sim::fail("results-differ", "task %d %s gets other results among others than alone", t, what);
		sim::count("alone.compared", (int)bodies.size());
	}

	// P03: values of one's own
	void runOwn(const Plan & p)
	{
		judgeFor(p);
		World w(p);
		std::vector<std::function<void()>> bodies;
		for (int t = 1; t <= (int)p.get("tasks", 2); ++t) bodies.push_back([&p, t]
		{
			All * x = makeIn<All>(p.get("value") + (p.get("twins") ? 0 : t));
			for (const Op & o : p.ops) if (o.task == t) sim::call([&] { if (o.code >= 20) work(*x, o); else ask(*x, o); });
			endIn(x);
		});
		both(bodies, "with values of its own");
	}
	void genOwn(Rng & r, Plan & p)
	{
		schedule(r, p);
		p.cfg["twins"] = r.chance(1, 3);
		const int tasks = 2 + (int)r.below(3); p.cfg["tasks"] = tasks;
		const bool same = r.chance(1, 2); const int code = one(r, 0, true).code;
		for (int t = 1; t <= tasks; ++t) for (u64 i = 0, n = 1 + r.below(4); i < n; ++i) { Op o = one(r, t, true); if (same) o.code = code; p.ops.push_back(o); }
	}
	// P04: values everybody looks at
	void runShared(const Plan & p)
	{
		judgeFor(p);
		World w(p);
		All * x = makeIn<All>(p.get("value"));
		std::vector<std::function<void()>> bodies;
		for (int t = 1; t <= (int)p.get("tasks", 2); ++t) bodies.push_back([&p, t, x] { for (const Op & o : p.ops) if (o.task == t) sim::call([&] { ask(*x, o); }); });
		both(bodies, "looking at shared values");
		endIn(x);
	}
	void genShared(Rng & r, Plan & p)
	{
		schedule(r, p);
		const int tasks = 2 + (int)r.below(3); p.cfg["tasks"] = tasks;
		const bool same = r.chance(1, 2); const int code = one(r, 0, false).code;
		for (int t = 1; t <= tasks; ++t) for (u64 i = 0, n = 1 + r.below(4); i < n; ++i) { Op o = one(r, t, false); if (same) o.code = code; p.ops.push_back(o); }
	}
	sim::Register own({"own-values", "P03", genOwn, runOwn, 1, nullptr, show});
	sim::Register shared({"shared-values", "P04", genShared, runShared, 1, nullptr, show});
}
