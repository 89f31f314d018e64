// A program instantiated in two translation units of C28.
#pragma once
#include <tuple>
#include <vector>
#include "array/array.h"
#include "array/ein_reduce.h"
#include "array/image.h"
#include "array/matrix.h"
#include "array/z_order.h"
void other_unit(std::vector<long>& out, int a, int b, int d);
#define C28_UNIT(NAME) \
  NAME(std::vector<long>& out, int a, int b, int d) { \
    nda::array<int, nda::shape_of_rank<2>> x({nda::dim<>(0, a, 1), nda::dim<>(1, b)}, 3); int n = d; \
    nda::generate(x, [&] { return n += d; }); auto y = nda::make_compact_copy(x); nda::image<int> im({a, b, d}, 1); nda::matrix<int> m({a, b}, 2); \
    nda::ein_reduce(nda::ein<0, 1>(m) += nda::ein<0, 1>(m) * nda::ein<0, 1>(m)); \
    nda::for_each_in_z_order(std::make_tuple(nda::interval<>(0, a), nda::interval<>(1, b)), [&](const std::tuple<nda::index_t, nda::index_t>& i) { out.push_back(x[i]); }); \
    for (auto i : nda::split(nda::interval<>(0, a), 2)) out.push_back(i.max()); \
    y.for_each_value([&](int& v) { out.push_back(v); }); m.for_each_value([&](int& v) { out.push_back(v); }); out.push_back((long)im.size()); out.push_back(nda::equal(x, y)); \
    auto s = nda::make_ein_sum<int, 0>(nda::ein<0, 1>(x)); s.for_each_value([&](int& v) { out.push_back(v); }); }
