// Records what the sparse/dense matrix helpers make of small whole-number matrices, for specs/BlocksTrace.tla (C27).
#include "geometrycentral/numerical/linear_algebra_utilities.h"
#include "vt.h"
#include <complex>
#include <limits>
#include <sstream>
using namespace vt;
using namespace geometrycentral;
typedef std::vector<long> L;
typedef std::vector<L> M;
typedef std::complex<double> C;

static long ri(double x) { return std::isfinite(x) && std::abs(x) < 1e6 && x == std::round(x) ? (long)x : 999999; }
static long re(double x) { return ri(x); }
static long im(double) { return 0; }
static long re(float x) { return ri(x); }
static long im(float) { return 0; }
static long re(C x) { return ri(x.real()); }
static long im(C x) { return ri(x.imag()); }
template <class Mat>
static J mat(const Mat& a) { // any matrix, through its coefficients
  M r, i;
  for (long x = 0; x < a.rows(); x++) {
    L p, q;
    for (long y = 0; y < a.cols(); y++) p.push_back(re(a(x, y))), q.push_back(im(a(x, y)));
    r.push_back(p), i.push_back(q);
  }
  J j;
  j("rows", (long)a.rows())("cols", (long)a.cols())("re", r)("im", i);
  return j;
}
template <class T>
static J sp(const SparseMatrix<T>& a) { // from the stored entries themselves
  M r(a.rows(), L(a.cols(), 0)), i = r;
  bool ok = true;
  for (long k = 0; k < a.outerSize(); k++)
    for (typename SparseMatrix<T>::InnerIterator it(a, k); it; ++it) {
      if (it.row() < 0 || it.col() < 0 || it.row() >= a.rows() || it.col() >= a.cols()) {
        ok = false;
        continue;
      }
      r[it.row()][it.col()] += re(it.value()), i[it.row()][it.col()] += im(it.value());
    }
  J j;
  j("rows", ok ? (long)a.rows() : -1)("cols", (long)a.cols())("re", r)("im", i);
  return j;
}
template <class V>
static J vec(const V& v) {
  L r, i;
  for (long k = 0; k < v.rows(); k++) r.push_back(re(v[k])), i.push_back(im(v[k]));
  J j;
  j("n", (long)v.rows())("re", r)("im", i);
  return j;
}
template <class V>
static L ints(const V& v) {
  L r;
  for (long k = 0; k < v.rows(); k++) r.push_back((long)v[k]);
  return r;
}
template <class T>
struct Gen {
  Rng& R;
  T num() {
    T x;
    set(x);
    return x;
  }
  void set(double& x) { x = R.range(-9, 9); }
  void set(float& x) { x = (float)R.range(-9, 9); }
  void set(C& x) { x = C(R.range(-9, 9), R.range(-9, 9)); }
  SparseMatrix<T> sparse(long r, long c, int pct) {
    SparseMatrix<T> a(r, c);
    if (R.chance(50)) {
      std::vector<Eigen::Triplet<T>> t;
      for (long x = 0; x < r; x++)
        for (long y = 0; y < c; y++)
          if (R.chance(pct)) {
            t.emplace_back(x, y, num());
            if (R.chance(10)) t.emplace_back(x, y, num()); // summed
          }
      a.setFromTriplets(t.begin(), t.end());
    } else
      for (long x = 0; x < r; x++)
        for (long y = 0; y < c; y++)
          if (R.chance(pct)) a.coeffRef(x, y) = num(); // uncompressed, possibly explicit zeros
    return a;
  }
  Vector<T> vecN(long n) {
    Vector<T> v(n);
    for (long k = 0; k < n; k++) v[k] = num();
    return v;
  }
};
template <class F>
static std::string guarded(F f) {
  try {
    f();
    return "";
  } catch (std::exception& e) {
    return *e.what() ? std::string(e.what()).substr(0, 40) : "exception";
  }
}
static void ab(const char* of) {
  about(std::string("\"of\":\"") + of + "\"");
  cpuLimit(5);
}

template <class T>
static void block(Rng& R, long n, long mask, int pct) {
  Gen<T> G{R};
  auto a = G.sparse(n, n, pct);
  Vector<bool> A(n);
  L Al;
  for (long k = 0; k < n; k++) A[k] = (mask >> k) & 1, Al.push_back((mask >> k) & 1);
  bool full = R.chance(75);
  auto v = G.vecN(n);
  ab("block");
  auto d = blockDecomposeSquare(a, A, full);
  Vector<T> va = G.vecN(2), vb;
  decomposeVector(d, v, va, vb);
  auto wa = G.vecN(va.rows()), wb = G.vecN(vb.rows());
  Vector<T> back = reassembleVector(d, wa, wb), same = reassembleVector(d, va, vb);
  J j;
  j("op", "block")("n", n)("m", sp(a))("A", Al)("full", full)("AA", sp(d.AA))("AB", sp(d.AB))("BA", sp(d.BA))("BB", sp(d.BB))(
      "oa", ints(d.origIndsA))("ob", ints(d.origIndsB))("new", ints(d.newInds))("isA", ints(d.isA))("v", vec(v))("va", vec(va))(
      "vb", vec(vb))("wa", vec(wa))("wb", vec(wb))("back", vec(back))("same", vec(same));
  emit(j);
}
template <class T>
static void nonSquare(Rng& R) {
  Gen<T> G{R};
  long r = R.range(0, 4), c = R.range(0, 4);
  if (r == c) return;
  auto a = G.sparse(r, c, 50);
  Vector<bool> A(std::max(r, c));
  for (long k = 0; k < A.rows(); k++) A[k] = R.chance(50);
  ab("nonsquare");
  std::string x = guarded([&] { blockDecomposeSquare(a, A); });
  std::string y = guarded([&] { shiftDiagonal<T>(a, (T)3); });
  std::string z = guarded([&] { checkSymmetric(a); }), w = guarded([&] { checkHermitian(a); });
  J j;
  j("op", "nonsquare")("m", sp(a))("x", x)("y", y)("z", z)("w", w);
  emit(j);
}
template <class T>
static void stack(Rng& R) {
  Gen<T> G{R};
  std::vector<SparseMatrix<T>, Eigen::aligned_allocator<SparseMatrix<T>>> ms;
  std::vector<J> in;
  bool vert = R.chance(50);
  long n = R.range(0, 4), w = R.range(0, 3), bad = R.chance(12) ? R.range(0, 3) : -1;
  for (long k = 0; k < n; k++) {
    long o = R.range(0, 3), ww = k == bad ? R.range(0, 3) : w;
    ms.push_back(vert ? G.sparse(o, ww, 60) : G.sparse(ww, o, 60));
    in.push_back(sp(ms.back()));
  }
  ab("stack");
  SparseMatrix<T> out;
  std::string x = guarded([&] { out = vert ? verticalStack<T>(ms) : horizontalStack<T>(ms); });
  J j;
  j("op", "stack")("vert", vert)("in", in)("x", x)("out", sp(out));
  emit(j);
}
static void expand(Rng& R) {
  Gen<C> G{R};
  auto a = G.sparse(R.range(0, 4), R.range(0, 4), 50);
  auto v = G.vecN(a.cols());
  ab("expand");
  SparseMatrix<double> ra = complexToReal(a);
  Vector<double> rv = complexToReal(v);
  Vector<C> back = realToComplex(rv);
  Vector<double> prod = ra * rv;
  Vector<C> cprod = a * v;
  J j;
  j("op", "expand")("m", sp(a))("v", vec(v))("rm", sp(ra))("rv", vec(rv))("back", vec(back))("prod", vec(prod))("cprod", vec(cprod));
  emit(j);
}
static double conjOf(double x) { return x; }
static float conjOf(float x) { return x; }
static C conjOf(C x) { return std::conj(x); }
template <class T>
static void symm(Rng& R) {
  Gen<T> G{R};
  long n = R.range(1, 4);
  auto a = G.sparse(n, n, R.pick(std::vector<int>{25, 50, 100}));
  int style = R.range(0, 3);
  if (style) { // symmetrise, one way or another
    for (long x = 0; x < n; x++)
      for (long y = 0; y <= x; y++) {
        T u = a.coeff(x, y);
        if (style == 1) {
          if (u != T(0) || a.coeff(y, x) != T(0)) a.coeffRef(y, x) = u;
        } else {
          if (x == y) u = u + conjOf(u);
          if (u != T(0) || a.coeff(y, x) != T(0)) a.coeffRef(x, y) = u, a.coeffRef(y, x) = conjOf(u);
        }
      }
  }
  if (style && R.chance(40)) { // spoil one entry
    long x = R.range(0, (int)n - 1), y = R.range(0, (int)n - 1);
    a.coeffRef(x, y) += G.num();
  }
  double eps = R.chance(30) ? R.range(0, 4) : -1;
  ab("symm");
  std::string s = guarded([&] { checkSymmetric(a, eps); }), h = guarded([&] { checkHermitian(a, eps); });
  J j;
  j("op", "symm")("m", sp(a))("eps", (long)eps)("sym", s.empty())("herm", h.empty());
  emit(j);
}
static bool boom(const std::function<void()>& f) {
  try {
    f();
    return false;
  } catch (std::exception&) {
    return true;
  }
}
template <class T>
static void finite(Rng& R) {
  Gen<T> G{R};
  long r = R.range(1, 4), c = R.range(1, 4);
  auto a = G.sparse(r, c, 60);
  DenseMatrix<T> d(r, c);
  Eigen::Matrix<T, 1, Eigen::Dynamic> row(c);
  Vector<T> col(r);
  for (long x = 0; x < r; x++)
    for (long y = 0; y < c; y++) d(x, y) = row(y) = col(x) = G.num();
  bool bad[4];
  for (bool& b : bad) b = R.chance(50);
  double nf = R.chance(50) ? std::numeric_limits<double>::quiet_NaN() : std::numeric_limits<double>::infinity() * (R.chance(50) ? 1 : -1);
  long x = R.range(0, (int)r - 1), y = R.range(0, (int)c - 1);
  if (bad[0]) a.coeffRef(x, y) = (T)nf;
  if (bad[1]) d(x, y) = (T)nf;
  if (bad[2]) row(y) = (T)nf;
  if (bad[3]) col(x) = (T)nf;
  ab("finite");
  std::vector<bool> want(bad, bad + 4), got;
  got.push_back(boom([&] { checkFinite(a); }));
  got.push_back(boom([&] { checkFinite(d); }));
  got.push_back(boom([&] { checkFinite(row); }));
  got.push_back(boom([&] { checkFinite(col); }));
  J j;
  j("op", "finite")("want", want)("got", got);
  emit(j);
}
template <class T>
static void misc(Rng& R) {
  Gen<T> G{R};
  long n = R.range(0, 4);
  auto a = G.sparse(n, n, 50);
  SparseMatrix<T> b = a;
  T s = G.num();
  ab("misc");
  shiftDiagonal(b, s);
  SparseMatrix<T> eye = identityMatrix<T>((size_t)n);
  DenseMatrix<T> d(R.range(1, 4), R.range(1, 4));
  for (long x = 0; x < d.rows(); x++)
    for (long y = 0; y < d.cols(); y++) d(x, y) = G.num();
  std::vector<std::vector<T>> u = unpackMatrixToStdVector<T>(d);
  M ur, ui;
  for (auto& row : u) {
    L p, q;
    for (auto& z : row) p.push_back(re(z)), q.push_back(im(z));
    ur.push_back(p), ui.push_back(q);
  }
  J j;
  j("op", "misc")("m", sp(a))("s", L{re(s), im(s)})("out", sp(b))("eye", sp(eye))("d", mat(d))("ur", ur)("ui", ui);
  emit(j);
}
template <class T>
static void io(Rng& R) {
  Gen<T> G{R};
  auto a = G.sparse(R.range(0, 4), R.range(0, 4), 50);
  DenseMatrix<T> d(R.range(0, 4), R.range(0, 4));
  for (long x = 0; x < d.rows(); x++)
    for (long y = 0; y < d.cols(); y++) d(x, y) = G.num();
  ab("io");
  SparseMatrix<T> b;
  DenseMatrix<T> e;
  std::string x = guarded([&] {
    std::stringstream s, t;
    saveSparseMatrix(s, a);
    b = loadSparseMatrix<T>(s);
    saveDenseMatrix(t, d);
    e = loadDenseMatrix<T>(t);
  });
  J j;
  j("op", "io")("x", x)("m", sp(a))("d", mat(d))("m2", sp(b))("d2", mat(e));
  emit(j);
}

int main(int argc, char** argv) {
  Args A(argc, argv);
  vt::init(A.str("out", "/dev/stdout").c_str());
  long shard = A.num("shard", 0), shards = A.num("shards", 1), iters = A.num("iters", 200), maxn = A.num("maxn", 5);
  Rng R((uint64_t)A.num("seed", 1) * 7919 + shard);
  emit(J()("op", "init"));
  long job = 0;
  for (long n = 0; n <= maxn; n++) // every index subset
    for (long mask = 0; mask < (1l << n); mask++)
      for (int pct : {100, 40})
        if (job++ % shards == shard) {
          block<double>(R, n, mask, pct);
          block<C>(R, n, mask, pct);
        }
  for (long it = 0; it < iters; it++) {
    long n = R.range(0, 7);
    block<float>(R, n, (long)R.below(1ul << n), 50);
    stack<double>(R), stack<C>(R), stack<float>(R);
    expand(R);
    symm<double>(R), symm<C>(R), symm<float>(R);
    nonSquare<double>(R), nonSquare<C>(R);
    finite<double>(R), finite<float>(R), finite<C>(R);
    misc<double>(R), misc<C>(R), misc<float>(R);
    io<double>(R), io<C>(R), io<float>(R);
  }
  vt::done();
  _exit(0);
}
