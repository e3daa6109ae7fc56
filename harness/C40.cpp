/* C40: vectors and quaternions against the same arithmetic in wider types. */
#include "sbmodel.h"
#include "Vector3.h"
#include "Quaternion.h"
#include <math.h>
#include <limits>
const char* VF_PROPERTY = "C40";
const char* VF_RULE = "A case is a series of operations on vectors of one component type (float, double, and signed and unsigned integers of 8 to 32 bits), drawn among zero, axes, equal, parallel, opposite, nearly so, orthogonal, and all magnitudes up to 2^20 (integers: as far as the result is representable), and quaternions of the like. Distinct by the operands.";
using namespace vf;
typedef long double LD;
struct D3 { LD x, y, z; };
template <class T> static D3 w(const Vector3<T>& v) { return {(LD)v.x, (LD)v.y, (LD)v.z}; }
static LD dot(D3 a, D3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static D3 cross(D3 a, D3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static LD len(D3 a) { return sqrtl(dot(a, a)); }
static D3 scale(D3 a, LD s) { return {a.x * s, a.y * s, a.z * s}; }
static bool close(LD got, LD want, LD tol) { return fabsl(got - want) <= tol; }
static bool close(D3 g, D3 v, LD tol) { return close(g.x, v.x, tol) && close(g.y, v.y, tol) && close(g.z, v.z, tol); }
#define P3(a) (double)(a).x, (double)(a).y, (double)(a).z
template <class T> static T part(Rng& r) { double m = (int32_t)r.u32() / (double)2147483648u; switch (r.below(8)) { case 0: return 0; case 1: return r.chance(1, 2) ? 1 : -1; case 2: return (T)(int)(r.below(21) - 10); case 3: return (T)ldexp(m, (int)r.below(40) - 20); default: return (T)(m * 100); } }
template <class T> static Vector3<T> vec(Rng& r, const Vector3<T>* o) {
  if (o && r.chance(1, 2)) { T k = (T)(r.chance(1, 2) ? 1 : r.chance(1, 2) ? -1 : (int)r.below(17) - 8); Vector3<T> v(o->x * k, o->y * k, o->z * k); switch (r.below(4)) { case 0: return v; case 1: { v.x += (T)ldexp((double)v.x, -(int)(10 + r.below(14))); return v; } case 2: return Vector3<T>(-o->y, o->x, 0); default: { T q = (T)(1 / (double)(1 + r.below(9))); return Vector3<T>(o->x * q, o->y * q, o->z * q); } } }
  return Vector3<T>(part<T>(r), part<T>(r), part<T>(r));
}
template <class T> static void real_case(Ctx& c) {
  Rng& r = c.rng; const LD E = std::numeric_limits<T>::epsilon(), EF = std::numeric_limits<float>::epsilon();
  for (unsigned n = c.thorough ? 40 : 16; n; n--) {
    Vector3<T> a = vec<T>(r, nullptr), b = vec<T>(r, &a), t; T k = part<T>(r); D3 A = w(a), B = w(b); c.op("a (%.9g, %.9g, %.9g) b (%.9g, %.9g, %.9g) k %.9g", P3(a), P3(b), (double)k); LD la = len(A), lb = len(B), ab = dot(A, B);
    t = a + b; VF_CHECK(t.x == (T)(a.x + b.x) && t.y == (T)(a.y + b.y) && t.z == (T)(a.z + b.z), "sum", "the sum is (%g, %g, %g)", P3(t)); { Vector3<T> u = a; Vector3<T>& rr = (u += b); VF_CHECK(u == t && &rr == &u, "sum", "+= gives (%g, %g, %g)", P3(u)); rr = (u -= b); VF_CHECK(close(w(u), A, E * 2 * (la + lb)), "sum", "back by -= it's (%g, %g, %g)", P3(u)); }
    t = a - b; VF_CHECK(t.x == (T)(a.x - b.x) && t.y == (T)(a.y - b.y) && t.z == (T)(a.z - b.z), "sum", "the difference is (%g, %g, %g)", P3(t)); t = -a; VF_CHECK(t.x == -a.x && t.y == -a.y && t.z == -a.z, "sum", "the negative is (%g, %g, %g)", P3(t));
    t = a * k; VF_CHECK(close(w(t), scale(A, k), E * fabsl(k) * la), "scale", "times %g it's (%g, %g, %g)", (double)k, P3(t)); { Vector3<T> u = a; u *= k; VF_CHECK(u == t, "scale", "*= differs"); } if (k != 0) { t = a / k; VF_CHECK(close(w(t), scale(A, 1 / (LD)k), 2 * E * la / fabsl(k)), "scale", "by %g it's (%g, %g, %g)", (double)k, P3(t)); Vector3<T> u = a; u /= k; VF_CHECK(u == t, "scale", "/= differs"); }
    VF_CHECK(close(a * b, ab, 4 * E * la * lb), "dot", "the dot product is %g, should be %g", (double)(a * b), (double)ab); t = a % b; VF_CHECK(close(w(t), cross(A, B), 4 * E * la * lb), "cross", "the cross product is (%g, %g, %g)", P3(t)); { Vector3<T> u = b % a; VF_CHECK(close(w(u), scale(w(t), -1), 4 * E * la * lb), "cross", "it doesn't anticommute"); } VF_CHECK(close(dot(w(t), A), 0, 8 * E * la * la * lb), "cross", "it isn't orthogonal");
    VF_CHECK(close(a.length_squared(), la * la, 4 * E * la * la) && close(a.length(), la, 4 * EF * la), "length", "the length is %g, squared %g, should be %g", (double)a.length(), (double)a.length_squared(), (double)la);
    bool pos = la > 1e-6L && lb > 1e-6L;
    { Vector3<T> u = a; float ret = u.normalize(); if (la == 0) VF_CHECK(u.x == 0 && u.y == 0 && u.z == 0, "normalize", "nothing was normalized to (%g, %g, %g)", P3(u)); else if (la > 1e-9L) { VF_CHECK(close(w(u), scale(A, 1 / la), 8 * EF), "normalize", "normalized it's (%.9g, %.9g, %.9g), should be (%.9g, %.9g, %.9g)", P3(u), (double)(A.x / la), (double)(A.y / la), (double)(A.z / la)); Vector3<T> q = a.normalized(), m = a; VF_CHECK(close(w(q), scale(A, 1 / la), 8 * EF), "normalize", "normalized() is (%g, %g, %g)", P3(q)); m.normalize(a.length()); VF_CHECK(close(w(m), scale(A, 1 / la), 8 * EF), "normalize", "normalize(length) is (%g, %g, %g)", P3(m)); m = a; m.normalize((float)0); VF_CHECK(m == a, "normalize", "by length 0 it's (%g, %g, %g)", P3(m)); (void)ret; } }
    if (lb > 1e-6L) { D3 pr = scale(B, ab / (lb * lb)); t = a.projected(b); LD tol = 16 * E * la; VF_CHECK(close(w(t), pr, tol), "project", "projected it's (%g, %g, %g), should be (%g, %g, %g)", P3(t), P3(pr)); Vector3<T> u = a; u.project(b); VF_CHECK(u == t, "project", "project() differs"); u = a; u.reflect(b); D3 rf = {2 * pr.x - A.x, 2 * pr.y - A.y, 2 * pr.z - A.z}; VF_CHECK(close(w(u), rf, 2 * tol + E * la), "reflect", "reflected it's (%g, %g, %g), should be (%g, %g, %g)", P3(u), P3(rf)); c.count("projections"); }
    if (pos) { float g = Vector3<T>::angle(a, b); LD co = ab / (la * lb); VF_CHECK(g == g && g >= 0 && g <= 3.1415928f && close(cosl(g), co, 1e-6L), "angle", "the angle is %.9g, its cosine should be %.9g", g, (double)co); Vector3<T> u = a, v = b; u.normalize(); v.normalize(); g = Vector3<T>::angle_normalized(u, v); VF_CHECK(g == g && g >= 0 && g <= 3.1415928f && close(cosl(g), co, 2e-6L), "angle", "normalized, the angle is %.9g, its cosine should be %.9g", g, (double)co); c.count(fabsl(co) > 1 - 1e-6L ? "parallel" : "angles"); } else if (la == 0 || lb == 0) VF_CHECK(Vector3<T>::angle(a, b) == 0, "angle", "the angle with nothing is %g", Vector3<T>::angle(a, b));
    { Vector3<T> u(&a), v = a, s, q; s.set(&a); q.set(a.x, a.y, a.z); VF_CHECK(u == a && v == a && s == a && q == a && !(u != a), "equal", "a copy isn't equal"); q(b.x, b.y, b.z); VF_CHECK(q == b, "equal", "a set vector isn't equal"); bool eq = a.x == b.x && a.y == b.y && a.z == b.z; VF_CHECK((a == b) == eq && (a != b) == !eq, "equal", "(%g, %g, %g) == (%g, %g, %g) is %d", P3(a), P3(b), a == b); T* f[] = {&u.x, &u.y, &u.z}; unsigned j = r.below(3); *f[j] = (T)nextafter((double)*f[j] * (double)2 + 1, (double)9); VF_CHECK((u == a) == (*f[j] == (j == 0 ? a.x : j == 1 ? a.y : a.z)) && (u != a) == !(u == a), "equal", "a difference in one component is missed"); Vector3<T> z; VF_CHECK(z.x == 0 && z.y == 0 && z.z == 0, "equal", "a new vector isn't zero"); }
    T h = a.x; c.hash(&h, sizeof h); c.hash(&b.y, sizeof b.y); c.hash(&k, sizeof k); c.feat(mix(mix(sizeof(T), la == 0), mix(pos, ab > 0) * 7 + (ab == 0))); c.count("vectors"); c.nontrivial = true;
  }
}
template <class T> static void int_case(Ctx& c) {
  Rng& r = c.rng; const int64_t LO = std::numeric_limits<T>::min(), HI = std::numeric_limits<T>::max();
  for (unsigned n = c.thorough ? 60 : 24; n; n--) {
    unsigned bits = 1 + r.below(sizeof(T) * 8); auto comp = [&]() { int64_t v = (int64_t)(r.u32() & (bits == 32 ? 0xFFFFFFFFu : (1u << bits) - 1)); if (LO < 0 && r.chance(1, 2)) v = -v; if (r.chance(1, 20)) v = r.chance(1, 2) ? HI : LO; return (T)std::max(LO, std::min(HI, v)); };
    Vector3<T> a(comp(), comp(), comp()), b(comp(), comp(), comp()), t; T k = comp(); c.op("a (%g, %g, %g) b (%g, %g, %g) k %g", P3(a), P3(b), (double)k); typedef LD I; auto fits = [&](I v) { return v >= LO && v <= HI; }; I ax = a.x, ay = a.y, az = a.z, bx = b.x, by = b.y, bz = b.z, K = k;
    auto is = [&](const Vector3<T>& v, I x, I y, I z, const char* what) { VF_CHECK((I)v.x == x && (I)v.y == y && (I)v.z == z, "integer", "%s: (%g, %g, %g), should be (%lld, %lld, %lld)", what, P3(v), (long long)x, (long long)y, (long long)z); c.count("integer_results"); };
    auto all = [&](I x, I y, I z) { return fits(x) && fits(y) && fits(z); };
    if (all(ax + bx, ay + by, az + bz)) { is(a + b, ax + bx, ay + by, az + bz, "sum"); t = a; t += b; is(t, ax + bx, ay + by, az + bz, "+="); } if (all(ax - bx, ay - by, az - bz)) { is(a - b, ax - bx, ay - by, az - bz, "difference"); t = a; t -= b; is(t, ax - bx, ay - by, az - bz, "-="); } if (all(-ax, -ay, -az)) is(-a, -ax, -ay, -az, "negative"); if (all(ax * K, ay * K, az * K)) { is(a * k, ax * K, ay * K, az * K, "scaled"); t = a; t *= k; is(t, ax * K, ay * K, az * K, "*="); } if (K && all(truncl(ax / K), truncl(ay / K), truncl(az / K))) { is(a / k, truncl(ax / K), truncl(ay / K), truncl(az / K), "divided"); t = a; t /= k; is(t, truncl(ax / K), truncl(ay / K), truncl(az / K), "/="); }
    auto wide = [&](I v) { return v >= INT32_MIN && v <= INT32_MAX; }; I p[] = {ax * bx, ay * by, az * bz}; if (sizeof(T) == 4 ? fits(p[0]) && fits(p[1]) && fits(p[2]) && fits(p[0] + p[1]) && fits(p[0] + p[1] + p[2]) : fits(p[0] + p[1] + p[2]) && wide(p[0]) && wide(p[1]) && wide(p[2]) && wide(p[0] + p[1])) VF_CHECK((I)(a * b) == p[0] + p[1] + p[2], "integer", "the dot product is %lld, should be %lld", (long long)(a * b), (long long)(p[0] + p[1] + p[2]));
    I q[] = {ay * bz, az * by, az * bx, ax * bz, ax * by, ay * bx}; bool ok = all(q[0] - q[1], q[2] - q[3], q[4] - q[5]); for (I v : q) ok = ok && (sizeof(T) == 4 ? fits(v) : wide(v)); if (ok) is(a % b, q[0] - q[1], q[2] - q[3], q[4] - q[5], "cross product");
    I s[] = {ax * ax, ay * ay, az * az}; if (s[0] <= HI && s[1] <= HI && s[2] <= HI && s[0] + s[1] <= HI && s[0] + s[1] + s[2] <= HI) { I L2 = s[0] + s[1] + s[2]; VF_CHECK((I)a.length_squared() == L2, "integer", "the squared length is %lld, should be %lld", (long long)a.length_squared(), (long long)L2); float l = a.length(); VF_CHECK(fabs(l - sqrt((double)L2)) < 1.0001, "integer", "the length is %g, its square %lld", l, (long long)L2); }
    VF_CHECK((a == b) == (ax == bx && ay == by && az == bz) && (a != b) == !(a == b), "equal", "(%g, %g, %g) == (%g, %g, %g) is %d", P3(a), P3(b), a == b); t = a; VF_CHECK(t == a, "equal", "a copy isn't equal"); bool tiny = true; for (I v : {ax, ay, az, bx, by, bz}) tiny = tiny && v <= 5 && v >= -5; if (tiny) { c.count("integer_angles"); float g = Vector3<T>::angle(a, b); VF_CHECK(g == g, "angle", "the angle of integers is NaN"); }
    c.hash(&a.x, sizeof a.x); c.hash(&b.z, sizeof b.z); c.hash(&k, sizeof k); c.nontrivial = true; c.feat(mix(sizeof(T) * 2 + (LO < 0), bits));
  }
}
static void quat_case(Ctx& c) {
  Rng& r = c.rng; { Quaternion q; VF_CHECK(q.x == 0 && q.y == 0 && q.z == 0 && q.w == 1, "identity", "a new quaternion is (%g, %g, %g, %g)", (double)q.x, (double)q.y, (double)q.z, (double)q.w); }
  for (unsigned n = c.thorough ? 40 : 16; n; n--) {
    float v[4]; for (auto& f : v) f = part<float>(r); Quaternion q(v[0], v[1], v[2], v[3]), s; s.set(v[0], v[1], v[2], v[3]); c.op("q (%.9g, %.9g, %.9g, %.9g)", (double)v[0], (double)v[1], (double)v[2], (double)v[3]); VF_CHECK(q.x == v[0] && q.y == v[1] && q.z == v[2] && q.w == v[3] && s.x == v[0] && s.y == v[1] && s.z == v[2] && s.w == v[3], "set", "it isn't what was set"); LD l = sqrtl((LD)v[0] * v[0] + (LD)v[1] * v[1] + (LD)v[2] * v[2] + (LD)v[3] * v[3]);
    if (l > 1e-9L) { float ret = q.normalize(); VF_CHECK(close(ret, 1 / l, 1e-6L / l), "normalize", "normalize() returned %g for length %g", ret, (double)l); float g[] = {q.x, q.y, q.z, q.w}; for (int k = 0; k < 4; k++) VF_CHECK(close(g[k], v[k] / l, 1e-6L), "normalize", "component %d is %.9g, should be %.9g", k, g[k], (double)(v[k] / l)); c.count("quaternions"); }
    { StringBuilder o; s.printDebug(&o); char e[300]; snprintf(e, sizeof e, "(%2.5f, %2.5f, %2.5f, %2.5f) (x,y,z,w)", (double)v[0], (double)v[1], (double)v[2], (double)v[3]); sb_expect(&o, e, "print", "printDebug()"); }
    Vector3<float> d = r.chance(1, 6) ? Vector3<float>(0, 0, r.chance(1, 2) ? 1 : -1) : r.chance(1, 5) ? Vector3<float>(part<float>(r) * 1e-4f, part<float>(r) * 1e-4f, r.chance(1, 2) ? 1 : -1) : vec<float>(r, nullptr); if (len(w(d)) < 1e-6L) continue; LD L = len(w(d)); d(d.x / L, d.y / L, d.z / L); if (r.chance(1, 6)) d.z = d.z >= 0 ? nextafterf(d.z, 2) : nextafterf(d.z, -2); c.op("down (%.9g, %.9g, %.9g)", P3(d)); Quaternion u(9, 9, 9, 9); u.setDown(d.x, d.y, d.z);
    LD ql = sqrtl((LD)u.x * u.x + (LD)u.y * u.y + (LD)u.z * u.z + (LD)u.w * u.w); VF_CHECK(close(ql, 1, 1e-5L), "down", "setDown(%.9g, %.9g, %.9g) gave (%g, %g, %g, %g)", P3(d), (double)u.x, (double)u.y, (double)u.z, (double)u.w); D3 U = {u.x, u.y, u.z}, t = scale(cross(U, w(d)), 2), ct = cross(U, t), R = {d.x + u.w * t.x + ct.x, d.y + u.w * t.y + ct.y, d.z + u.w * t.z + ct.z}; VF_CHECK(close(R, D3{0, 0, 1}, fabsf(d.z) < 0.99f ? 1e-5L : 2e-3L), "down", "it turns (%.9g, %.9g, %.9g) to (%.9g, %.9g, %.9g)", P3(d), P3(R)); c.count("downs"); if (u.z != 0) VF_CHECK(fabsf(u.z) < 1e-6f, "down", "it turns about the vertical");
    c.hash(v, sizeof v); c.nontrivial = true; c.feat(mix(1000, (d.z > 0) + 2 * (d.x > 0) + 4 * (d.y == 0)));
  }
}
void vf_setup() {}
void vf_case(Ctx& c) {
  switch (c.rng.below(12)) { case 0: case 1: case 2: real_case<float>(c); break; case 3: case 4: real_case<double>(c); break; case 5: case 6: quat_case(c); break; default: switch (c.rng.below(6)) { case 0: int_case<int8_t>(c); break; case 1: int_case<uint8_t>(c); break; case 2: int_case<int16_t>(c); break; case 3: int_case<uint16_t>(c); break; case 4: int_case<int32_t>(c); break; default: int_case<uint32_t>(c); } }
}
