/* A data set as its accessors show it. */
#pragma once
#include "common.hpp"
#include "data/dataset.hpp"
using namespace vh;
using namespace EdgeLearning;
using D = Dataset<double>;

static std::string idx(const std::vector<SizeType>& v) { return jnums(v); }
static std::string shape(const D& d) {
    std::string r = "{\"w\":" + std::to_string(d.feature_size()) + ",\"seq\":" + std::to_string(d.sequence_size())
        + ",\"size\":" + std::to_string(d.size()) + ",\"empty\":" + (d.empty() ? "true" : "false")
        + ",\"data\":" + jnums(d.data()) + "}";
    return r;
}
template<typename F> static std::string many(std::size_t n, F f) {
    std::vector<std::string> v;
    for (std::size_t i = 0; i < n; ++i) v.push_back(jnums(f(i)));
    return jarr(v);
}
static std::string dump(const D& d) {
    std::size_t n = d.size(), q = d.sequence_size() && d.feature_size() ? d.data().size() / (d.sequence_size() * d.feature_size()) : 0;
    bool beyond = true;
    for (std::size_t i: {std::size_t(0), std::size_t(1), std::size_t(7), std::size_t(-1)}) {
        if (n + i >= n) beyond = beyond && d.entry(n + i).empty() && d.input(n + i).empty() && d.label(n + i).empty();
        if (q + i >= q && q) beyond = beyond && d.entry_seq(q + i).empty() && d.inputs_seq(q + i).empty() && d.labels_seq(q + i).empty();
    }
    return "{\"shape\":" + shape(d) + ",\"in_idx\":" + idx(d.input_idx()) + ",\"lab_idx\":" + idx(d.label_idx())
        + ",\"entry\":" + many(n, [&](std::size_t i) { return d.entry(i); })
        + ",\"input\":" + many(n, [&](std::size_t i) { return d.input(i); })
        + ",\"label\":" + many(n, [&](std::size_t i) { return d.label(i); })
        + ",\"entry_seq\":" + many(q, [&](std::size_t i) { return d.entry_seq(i); })
        + ",\"input_seq\":" + many(q, [&](std::size_t i) { return d.inputs_seq(i); })
        + ",\"label_seq\":" + many(q, [&](std::size_t i) { return d.labels_seq(i); })
        + ",\"inputs\":" + shape(d.inputs()) + ",\"labels\":" + shape(d.labels())
        + ",\"beyond\":" + (beyond ? "true" : "false") + "}";
}

