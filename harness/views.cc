// views.cc: programs of nested block operations on matrix and vector views
// against an address model (C19).
#include "gemm_common.h"

using namespace gemmlowp;
using pbt::G;
using pbt::Rng;
using pbt::strf;

template <typename T, MapOrder O>
void matrix_case(G& g) {
  int rows = g.range(1, 40), cols = g.range(1, 40);
  int minor = O == MapOrder::RowMajor ? cols : rows, major = O == MapOrder::RowMajor ? rows : cols;
  bool defstride = g.boolean();
  int stride = defstride ? minor : minor + static_cast<int>(g.weighted({2, 1}) == 0 ? g.range(0, 20) : g.range(0, 5000));
  std::vector<T> buf(static_cast<size_t>(major) * stride + 1);
  MatrixMap<T, O> v = defstride ? MatrixMap<T, O>(buf.data(), rows, cols) : MatrixMap<T, O>(buf.data(), rows, cols, stride);
  int r0 = 0, c0 = 0;  // position of the current view inside the original
  std::string d = strf("%s %dx%d stride=%d sizeof=%d:", O == MapOrder::RowMajor ? "Row" : "Col", rows, cols, stride, (int)sizeof(T));
  int ops = g.range(0, 5);
  for (int s = 0; s <= ops; s++) {
    if (v.rows() != rows || v.cols() != cols) g.fail("size %dx%d expected %dx%d", v.rows(), v.cols(), rows, cols);
    if (v.stride() != stride) g.fail("stride %d expected %d", v.stride(), stride);
    if (v.rows_stride() != (O == MapOrder::RowMajor ? stride : 1)) g.fail("row step %d", v.rows_stride());
    if (v.cols_stride() != (O == MapOrder::RowMajor ? 1 : stride)) g.fail("column step %d", v.cols_stride());
    for (int i = 0; i < rows; i++)
      for (int j = 0; j < cols; j++) {
        size_t off = O == MapOrder::RowMajor ? static_cast<size_t>(r0 + i) * stride + c0 + j : static_cast<size_t>(c0 + j) * stride + r0 + i;
        if (v.data(i, j) != buf.data() + off) g.fail("address of (%d,%d)", i, j);
        if (&v(i, j) != buf.data() + off) g.fail("reference to (%d,%d)", i, j);
        if (v.data() + i * v.rows_stride() + j * v.cols_stride() != buf.data() + off) g.fail("steps to (%d,%d)", i, j);
      }
    // writing through a view changes exactly that element
    if (rows > 0 && cols > 0) {
      int i = g.draw(rows), j = g.draw(cols);
      std::vector<T> before = buf;
      v(i, j) = static_cast<T>(before[0] + 77);
      size_t off = O == MapOrder::RowMajor ? static_cast<size_t>(r0 + i) * stride + c0 + j : static_cast<size_t>(c0 + j) * stride + r0 + i;
      for (size_t q = 0; q < buf.size(); q++)
        if (q != off && buf[q] != before[q]) g.fail("write to (%d,%d) hit another element", i, j);
    }
    g.add_evals(static_cast<uint64_t>(rows) * cols);
    if (s == ops) break;
    int br = g.range(0, rows), bc = g.range(0, cols);
    int sr = g.range(0, rows - br), sc = g.range(0, cols - bc);
    d += strf(" block(%d,%d,%d,%d)", sr, sc, br, bc);
    g.describe(d);
    MatrixMap<T, O> w = v.block(sr, sc, br, bc);
    MatrixMap<T, O> copy(w);
    v.~MatrixMap<T, O>();
    new (&v) MatrixMap<T, O>(copy);
    r0 += sr;
    c0 += sc;
    rows = br;
    cols = bc;
  }
  g.describe(d);
  g.label("kind:matrix");
  g.nontrivial(ops > 0);
}

template <typename T, VectorShape S>
void vector_case(G& g) {
  int n = g.range(1, 300);
  std::vector<T> buf(n + 1);
  for (int i = 0; i < n; i++) buf[i] = static_cast<T>(i * 7 + 3);
  VectorMap<T, S> v(buf.data(), n);
  T dupval = static_cast<T>(g.range(0, 200));
  VectorDup<const T, S> dup(dupval, n);
  int pos = 0;
  std::string d = strf("vector n=%d:", n);
  int ops = g.range(0, 5);
  for (int s = 0; s <= ops; s++) {
    if (v.size() != n || dup.size() != n) g.fail("size %d/%d expected %d", v.size(), dup.size(), n);
    for (int i = 0; i < n; i++) {
      if (v.data(i) != buf.data() + pos + i || &v(i) != buf.data() + pos + i) g.fail("address of %d", i);
      if (dup(i) != dupval) g.fail("repeated constant at %d", i);
    }
    if (v.data() != buf.data() + pos) g.fail("start address");
    g.add_evals(n + 1);
    if (s == ops) break;
    int len = g.range(0, n), st = g.range(0, n - len);
    d += strf(" block(%d,%d)", st, len);
    g.describe(d);
    VectorMap<T, S> w = v.block(st, len);
    v = w;
    VectorDup<const T, S> e = dup.block(st, len);
    dup.~VectorDup<const T, S>();
    new (&dup) VectorDup<const T, S>(e);
    pos += st;
    n = len;
  }
  g.describe(d);
  g.label("kind:vector");
  g.nontrivial(ops > 0);
}

void prop_views(G& g) {
  switch (g.draw(10)) {
    case 0: matrix_case<std::uint8_t, MapOrder::RowMajor>(g); break;
    case 1: matrix_case<std::uint8_t, MapOrder::ColMajor>(g); break;
    case 2: matrix_case<std::int32_t, MapOrder::RowMajor>(g); break;
    case 3: matrix_case<std::int32_t, MapOrder::ColMajor>(g); break;
    case 4: matrix_case<std::int16_t, MapOrder::RowMajor>(g); break;
    case 5: matrix_case<std::int16_t, MapOrder::ColMajor>(g); break;
    case 6: vector_case<std::int32_t, VectorShape::Row>(g); break;
    case 7: vector_case<std::int32_t, VectorShape::Col>(g); break;
    case 8: vector_case<std::uint8_t, VectorShape::Row>(g); break;
    default: vector_case<std::uint8_t, VectorShape::Col>(g); break;
  }
}

int main(int argc, char** argv) { return pbt::run_main(argc, argv, {{"views", prop_views}}); }
