// Generic handling of structure-of-arrays containers for the monitors.
#pragma once
#include "elems.hpp"

#include <vecmem/edm/container.hpp>

#include <tuple>
#include <utility>
#include <vector>

namespace soa {
using vm::Rng;
using vm::u64;
namespace edm = vecmem::edm;

template <typename BASE>
struct Iface : public BASE {
    using BASE::BASE;
    template <std::size_t I>
    decltype(auto) var() {
        return BASE::template get<I>();
    }
    template <std::size_t I>
    decltype(auto) var() const {
        return BASE::template get<I>();
    }
};

enum Kind { SCALAR, VECTOR, JAGGED };
template <typename V>
struct Var;
template <typename T>
struct Var<edm::type::scalar<T>> {
    static constexpr Kind kind = SCALAR;
    using type = T;
};
template <typename T>
struct Var<edm::type::vector<T>> {
    static constexpr Kind kind = VECTOR;
    using type = T;
};
template <typename T>
struct Var<edm::type::jagged_vector<T>> {
    static constexpr Kind kind = JAGGED;
    using type = T;
};

// What a container should hold: per variable, rows of numbers (scalars and
// vectors have one row).
using Values = std::vector<std::vector<std::vector<u64>>>;

template <typename... VS>
struct Soa {
    using cont = edm::container<Iface, VS...>;
    using schema = typename cont::schema_type;
    using host = typename cont::host;
    using data = typename cont::data;
    using const_data = typename cont::const_data;
    using buffer = typename cont::buffer;
    using device = typename cont::device;
    using const_device = typename cont::const_device;
    using view = typename cont::view;
    using const_view = typename cont::const_view;
    static constexpr std::size_t N = sizeof...(VS);
    template <std::size_t I>
    using V = Var<std::tuple_element_t<I, std::tuple<VS...>>>;
    static constexpr bool has_jagged = ((Var<VS>::kind == JAGGED) || ...);
    static constexpr bool has_vector = ((Var<VS>::kind != SCALAR) || ...);
    static constexpr unsigned n_jagged = ((Var<VS>::kind == JAGGED ? 1u : 0u) + ...);

    template <typename F, std::size_t... I>
    static void each(F&& f, std::index_sequence<I...>) {
        (f(std::integral_constant<std::size_t, I>{}), ...);
    }
    template <typename F>
    static void each(F&& f) {
        each(f, std::make_index_sequence<N>{});
    }

    static const Kind* kinds() {
        static const Kind k[] = {Var<VS>::kind...};
        return k;
    }

    static std::string name() {
        std::string s;
        each([&](auto I) {
            s += s.empty() ? "" : ",";
            s += V<I>::kind == SCALAR ? "" : V<I>::kind == VECTOR ? "v:" : "j:";
            s += vm::tname<typename V<I>::type>();
        });
        return s;
    }

    // Random values of a given outer size; row lengths from `inner`, at most
    // those when `below`, different per variable when `vary`.
    static Values values(Rng& rng, unsigned n, const std::vector<unsigned>& inner, bool below) {
        Values r(N);
        u64 x = rng.below(100000);
        each([&](auto I) {
            if constexpr (V<I>::kind == SCALAR) r[I] = {{++x}};
            else if constexpr (V<I>::kind == VECTOR) {
                r[I].resize(1);
                for (unsigned k = 0; k < n; ++k) r[I][0].push_back(x += 3);
            } else {
                r[I].resize(n);
                for (unsigned k = 0; k < n; ++k) {
                    unsigned m = k < inner.size() ? inner[k] : 0;
                    if (below) m = unsigned(rng.below(m + 1));
                    for (unsigned q = 0; q < m; ++q) r[I][k].push_back(x += 5);
                }
            }
        });
        return r;
    }

    static void to_host(host& h, const Values& v) {
        each([&](auto I) {
            using T = typename V<I>::type;
            if constexpr (V<I>::kind == SCALAR) h.template get<I>() = vm::make<T>(v[I][0][0]);
            else if constexpr (V<I>::kind == VECTOR) {
                h.template get<I>().resize(v[I][0].size());
                for (std::size_t k = 0; k < v[I][0].size(); ++k) h.template get<I>()[k] = vm::make<T>(v[I][0][k]);
            } else {
                h.template get<I>().resize(v[I].size());
                for (std::size_t k = 0; k < v[I].size(); ++k) {
                    h.template get<I>()[k].resize(v[I][k].size());
                    for (std::size_t q = 0; q < v[I][k].size(); ++q) h.template get<I>()[k][q] = vm::make<T>(v[I][k][q]);
                }
            }
        });
    }
    static std::string host_differs(const host& h, const Values& v) {
        std::string r;
        each([&](auto I) {
            using T = typename V<I>::type;
            if (!r.empty()) return;
            std::string who = "variable " + std::to_string(std::size_t(I));
            if constexpr (V<I>::kind == SCALAR) {
                if (!vm::same<T>(h.template get<I>(), v[I][0][0])) r = who + " (scalar) has another value";
            } else if constexpr (V<I>::kind == VECTOR) {
                if (h.template get<I>().size() != v[I][0].size()) {
                    r = who + " has size " + std::to_string(h.template get<I>().size()) + " instead of " + std::to_string(v[I][0].size());
                    return;
                }
                for (std::size_t k = 0; k < v[I][0].size(); ++k)
                    if (!vm::same<T>(h.template get<I>()[k], v[I][0][k])) r = who + " element " + std::to_string(k) + " has another value";
            } else {
                if (h.template get<I>().size() != v[I].size()) {
                    r = who + " has " + std::to_string(h.template get<I>().size()) + " rows instead of " + std::to_string(v[I].size());
                    return;
                }
                for (std::size_t k = 0; k < v[I].size(); ++k) {
                    if (h.template get<I>()[k].size() != v[I][k].size()) {
                        r = who + " row " + std::to_string(k) + " has size " + std::to_string(h.template get<I>()[k].size()) + " instead of " + std::to_string(v[I][k].size());
                        return;
                    }
                    for (std::size_t q = 0; q < v[I][k].size(); ++q)
                        if (!vm::same<T>(h.template get<I>()[k][q], v[I][k][q]))
                            r = who + " row " + std::to_string(k) + " element " + std::to_string(q) + " has another value";
                }
            }
        });
        return r;
    }
};

}  // namespace soa
