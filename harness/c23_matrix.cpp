// C23: transform matrices.
#include "datas/matrix44.hpp"
#include "mon.hpp"
#include <cmath>
#include <cstring>
using namespace mon;

typedef double D3[3];
struct Q {
  double x, y, z, w;
};
static Q mul(Q a, Q b) {
  return {a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y, a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x,
          a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w, a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z};
}
// p rotated by the quaternion read the way the matrices take it: rows of the matrix are axes turned by its conjugate
// (pinned by the tests)
static void rotate(Q q, const double *p, double *out) {
  Q r = mul(mul({-q.x, -q.y, -q.z, q.w}, {p[0], p[1], p[2], 0}), q);
  out[0] = r.x, out[1] = r.y, out[2] = r.z;
}
static Q randomQuat(Rng &r) {
  Q q{};
  double *p = &q.x;
  static const double H = 0.70710678118654752;
  switch (r.below(5)) {
  case 0: // about an axis
    p[r.below(4)] = r.chance(1, 2) ? 1 : -1;
    return q;
  case 1: { // quarter turns
    int i = r.below(4), j = (i + 1 + r.below(3)) % 4;
    p[i] = r.chance(1, 2) ? H : -H, p[j] = r.chance(1, 2) ? H : -H;
    return q;
  }
  case 2: // nearly one element
    for (int i = 0; i < 4; i++)
      p[i] = (r.unit() * 2 - 1) * 0.01;
    p[r.below(4)] = r.chance(1, 2) ? 1 : -1;
    break;
  default:
    do
      for (int i = 0; i < 4; i++)
        p[i] = r.unit() * 2 - 1;
    while (q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w < 0.01);
  }
  double l = std::sqrt(q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w);
  for (int i = 0; i < 4; i++)
    p[i] /= l;
  return q;
}
static Vector4A16 vec(Q q) { return Vector4A16(float(q.x), float(q.y), float(q.z), float(q.w)); }
static std::string show(const Vector4A16 &v) { return fmt("(%.7g %.7g %.7g %.7g)", v.X, v.Y, v.Z, v.W); }
static std::string show(const esMatrix44 &m) { return show(m.v[0]) + show(m.v[1]) + show(m.v[2]) + show(m.v[3]); }
static float num(Rng &r) { return float((r.unit() * 2 - 1) * std::pow(10.0, int(r.below(5)) - 2)); }
static float scaleOf(Rng &r, bool neg) {
  float s = float(std::pow(10.0, r.chance(1, 2) ? r.unit() * 3 - 1.5 : r.unit() * 5.6 - 2.8));
  if (r.chance(1, 5))
    s = 1;
  return neg && r.chance(1, 3) ? -s : s;
}
static const char *branchOf(Q q) {
  double m = std::max(std::max(std::fabs(q.x), std::fabs(q.y)), std::max(std::fabs(q.z), std::fabs(q.w)));
  return m == std::fabs(q.x) ? "mostly-x" : m == std::fabs(q.y) ? "mostly-y" : m == std::fabs(q.z) ? "mostly-z" : "mostly-w";
}
static bool sameTurn(Q q, const Vector4A16 &v, double tol) {
  const double *p = &q.x;
  double a = 0, b = 0;
  for (int i = 0; i < 4; i++)
    a = std::max(a, std::fabs(p[i] - v._arr[i])), b = std::max(b, std::fabs(p[i] + v._arr[i]));
  return std::min(a, b) <= tol;
}

MON_SECTION(rotations, 20000, 400000) {
  auto &r = c.rng;
  const Q q = randomQuat(r);
  esMatrix44 m(vec(q));
  note(fmt("quaternion %.9g %.9g %.9g %.9g", q.x, q.y, q.z, q.w));
  const std::string ctx = fmt("quaternion %.7g %.7g %.7g %.7g", q.x, q.y, q.z, q.w);
  // rows are the turned axes
  for (int i = 0; i < 3; i++) {
    double e[3] = {}, o[3];
    e[i] = 1;
    rotate(q, e, o);
    for (int k = 0; k < 3; k++)
      CHECK(std::fabs(m.v[i]._arr[k] - o[k]) < 2e-6, "rows", "%s: %s", ctx.c_str(), show(m).c_str());
    CHECK(m.v[i].W == 0, "rows", "%s: %s", ctx.c_str(), show(m).c_str());
  }
  CHECK(m.r4().X == 0 && m.r4().Y == 0 && m.r4().Z == 0 && m.r4().W == 1, "position", "%s: %s", ctx.c_str(), show(m).c_str());
  CHECK(sameTurn(q, m.ToQuat(), 3e-6 * 10), "back", "%s comes back as %s", ctx.c_str(), show(m.ToQuat()).c_str());
  event(branchOf(q));
  // points turn the same way, position does not take part
  double p[3], o[3];
  for (auto &d : p)
    d = num(r);
  m.r4() = Vector4A16(num(r), num(r), num(r), 1);
  esMatrix44 before(m);
  rotate(q, p, o);
  const Vector4A16 t = m.RotatePoint(Vector4A16(float(p[0]), float(p[1]), float(p[2]), r.chance(1, 2) ? 1.f : 0.f));
  const double len = std::fabs(p[0]) + std::fabs(p[1]) + std::fabs(p[2]);
  for (int k = 0; k < 3; k++)
    CHECK(std::fabs(t._arr[k] - o[k]) <= len * 3e-6, "point", "%s turns (%g %g %g) to %s", ctx.c_str(), p[0], p[1], p[2], show(t).c_str());
  CHECK(t.W == 1 && !memcmp(&before, &m, sizeof(m)), "point", "%s", ctx.c_str());
  // setting a rotation leaves the position
  const Vector4A16 pos = m.r4();
  const Q q2 = randomQuat(r);
  m.FromQuat(vec(q2));
  CHECK(!memcmp(&pos, &m.r4(), 16), "position", "%s", ctx.c_str());
  // product turns by both
  esMatrix44 a(vec(q)), b(vec(q2)), ab = a * b;
  CHECK(sameTurn(mul(q, q2), ab.ToQuat(), 1e-4), "product", "%s", ctx.c_str());
  distinct(hashBytes(&q, sizeof(q)));
}

MON_SECTION(composition, 20000, 400000) {
  auto &r = c.rng;
  const Q q = randomQuat(r);
  const bool mirrored = r.chance(1, 3);
  const Vector4A16 pos(num(r), num(r), num(r), 1), scale(scaleOf(r, mirrored), scaleOf(r, mirrored), scaleOf(r, mirrored), 0);
  esMatrix44 m;
  if (r.chance(1, 2)) // whatever was there before
    for (auto &v : m.v)
      v = Vector4A16(num(r), num(r), num(r), num(r));
  m.Compose(pos, vec(q), scale);
  const std::string ctx = fmt("pos %s turn %s scale %s", show(pos).c_str(), show(vec(q)).c_str(), show(scale).c_str());
  note(ctx);
  double big = 0;
  for (int i = 0; i < 3; i++) {
    double e[3] = {}, o[3];
    e[i] = scale._arr[i];
    big = std::max(big, std::fabs(e[i]));
    rotate(q, e, o);
    for (int k = 0; k < 3; k++)
      CHECK(std::fabs(m.v[i]._arr[k] - o[k]) <= 3e-6 * std::fabs(e[i]), "compose", "%s: %s", ctx.c_str(), show(m).c_str());
    CHECK(m.v[i].W == 0, "compose", "%s: %s", ctx.c_str(), show(m).c_str());
  }
  CHECK(!memcmp(&m.r4(), &pos, 16), "compose position", "%s: %s", ctx.c_str(), show(m).c_str());
  Vector4A16 p2, q2, s2;
  const esMatrix44 before(m);
  m.Decompose(p2, q2, s2);
  CHECK(!memcmp(&before, &m, sizeof(m)) && !memcmp(&p2, &pos, 16), "decompose", "%s", ctx.c_str());
  const bool odd = scale.X * scale.Y * scale.Z < 0;
  for (int k = 0; k < 3; k++)
    CHECK(std::fabs(s2._arr[k] - (odd ? -1 : 1) * std::fabs(scale._arr[k])) <= 5e-6 * std::fabs(scale._arr[k]), "decompose scale", "%s: %s", ctx.c_str(), show(s2).c_str());
  if (scale.X > 0 && scale.Y > 0 && scale.Z > 0)
    CHECK(sameTurn(q, q2, 3e-5), "decompose turn", "%s: %s", ctx.c_str(), show(q2).c_str());
  esMatrix44 n;
  n.Compose(p2, q2, s2);
  for (int i = 0; i < 3; i++)
    for (int k = 0; k < 4; k++)
      CHECK(std::fabs(n.v[i]._arr[k] - m.v[i]._arr[k]) <= 1e-4 * std::fabs(scale._arr[i]), "recompose", "%s: %s to %s", ctx.c_str(), show(m).c_str(), show(n).c_str());
  event(odd ? "mirrored" : "not-mirrored");
  // inverse of the turn and scale
  const esMatrix44 inv = -m;
  double prod[3][3];
  for (int i = 0; i < 3; i++)
    for (int k = 0; k < 3; k++) {
      prod[i][k] = 0;
      double mag = 0;
      for (int j = 0; j < 3; j++)
        prod[i][k] += double(m.v[i]._arr[j]) * inv.v[j]._arr[k], mag += std::fabs(double(m.v[i]._arr[j]) * inv.v[j]._arr[k]);
      CHECK(std::fabs(prod[i][k] - (i == k)) <= 2e-5 * (1 + std::fabs(scale._arr[i] / scale._arr[k])), "inverse", "%s: product %d %d is %g", ctx.c_str(), i, k, prod[i][k]);
    }
  for (int k = 0; k < 3; k++) {
    double t = 0, mag = 0;
    for (int j = 0; j < 3; j++)
      t -= double(inv.v[k]._arr[j]) * pos._arr[j], mag += std::fabs(double(inv.v[k]._arr[j]) * pos._arr[j]);
    CHECK(std::fabs(inv.r4()._arr[k] - t) <= 1e-5 * mag + 1e-20, "inverse position", "%s: %s", ctx.c_str(), show(inv.r4()).c_str());
  }
  CHECK(inv.r4().W == 1 && !memcmp(&before, &m, sizeof(m)), "inverse", "%s", ctx.c_str());
  distinct(hashBytes(&m, sizeof(m)));
}

MON_SECTION(products, 10000, 200000) {
  auto &r = c.rng;
  esMatrix44 m, n, id;
  float a[4][4], b[4][4];
  const bool whole = r.chance(1, 2); // whole numbers multiply exactly
  for (int i = 0; i < 4; i++)
    for (int k = 0; k < 4; k++) {
      a[i][k] = m.v[i]._arr[k] = whole ? float(int(r.below(2001)) - 1000) : num(r);
      b[i][k] = n.v[i]._arr[k] = whole ? float(int(r.below(2001)) - 1000) : num(r);
    }
  const esMatrix44 m0(m), n0(n), p = m * n;
  esMatrix44 pe(m), sq(m);
  auto *ret = &(pe *= n);
  sq *= sq;
  CHECK(ret == &pe && !memcmp(&m0, &m, sizeof(m)) && !memcmp(&n0, &n, sizeof(n)) && !memcmp(&p, &pe, sizeof(p)), "operands", "product");
  for (int i = 0; i < 4; i++)
    for (int k = 0; k < 4; k++) {
      double e = 0, mag = 0, es = 0, mags = 0;
      for (int j = 0; j < 4; j++)
        e += double(a[i][j]) * b[j][k], mag += std::fabs(double(a[i][j]) * b[j][k]), es += double(a[i][j]) * a[j][k], mags += std::fabs(double(a[i][j]) * a[j][k]);
      const double tol = whole ? 0 : 1e-6;
      CHECK(std::fabs(p.v[i]._arr[k] - e) <= tol * mag, "product", "row %d column %d is %.9g, not %.9g", i, k, p.v[i]._arr[k], e);
      CHECK(std::fabs(sq.v[i]._arr[k] - es) <= tol * mags, "square", "row %d column %d is %.9g, not %.9g", i, k, sq.v[i]._arr[k], es);
    }
  const esMatrix44 il = id * m, ir = m * id;
  for (int i = 0; i < 4; i++)
    for (int k = 0; k < 4; k++)
      CHECK(il.v[i]._arr[k] == m.v[i]._arr[k] && ir.v[i]._arr[k] == m.v[i]._arr[k], "identity", "%s", show(m).c_str());
  // transpositions
  esMatrix44 t(m);
  t.TransposeFull();
  for (int i = 0; i < 4; i++)
    for (int k = 0; k < 4; k++)
      CHECK(t.v[i]._arr[k] == a[k][i], "full transpose", "row %d column %d", i, k);
  esMatrix44 u(m);
  for (int i = 0; i < 3; i++)
    u.v[i].W = 0;
  u.Transpose();
  for (int i = 0; i < 4; i++)
    for (int k = 0; k < 4; k++)
      CHECK(u.v[i]._arr[k] == (i == 3 ? a[i][k] : k == 3 ? 0 : a[k][i]), "transpose", "row %d column %d", i, k);
  // construction and access
  const esMatrix44 r4(m.r1(), m.r2(), m.r3(), m.r4()), r3(m.r1(), m.r2(), m.r3()), rp(m.v);
  CHECK(!memcmp(&r4, &m, sizeof(m)) && !memcmp(&rp, &m, sizeof(m)) && !memcmp(&r3, &m, 48) && r3.r4().X == 0 && r3.r4().W == 0, "construction", "%s", show(r3).c_str());
  for (int i = 0; i < 4; i++)
    CHECK(&m[i] == &m.v[i] && &r4[i] == &r4.v[i], "access", "row %d", i);
  CHECK(&m.r2() == &m.v[1] && &r4.r3() == &r4.v[2], "access", "rows");
  m.MakeIdentity();
  CHECK(!memcmp(&m, &id, sizeof(m)), "identity", "%s", show(m).c_str());
  for (int i = 0; i < 4; i++)
    for (int k = 0; k < 4; k++)
      CHECK(id.v[i]._arr[k] == (i == k), "identity", "%s", show(id).c_str());
  event(whole ? "exact-products" : "products");
  distinct(hashBytes(a, sizeof(a)));
}
MON_MAIN
