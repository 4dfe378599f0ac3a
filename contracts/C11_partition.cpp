// Partitioning of index space: cover, disjoint, balanced
#include "threads.hpp"
using namespace spec;

template<std::size_t N> static void check_partition(std::size_t n, std::size_t m)
{
    auto parts = nd::partition_shape<N>(nd::make_shape(n, m));
    std::size_t at = 0;
    for (std::size_t k = 0; k < N; ++k)
    {
        auto p = parts[k];
        vc_assert("starts where the previous part ends", p.start[0] == at);
        vc_assert("ordered", p.start[0] <= p.final[0]);
        vc_assert("spans the other axis", p.start[1] == 0 && p.final[1] == m && p.jumps[0] == 1 && p.jumps[1] == 1);
        auto c = p.final[0] - p.start[0];
        vc_assert("balanced", c * N <= n + N - 1 && c * N + N - 1 >= n);
        at = p.final[0];
    }
    vc_assert("covers the axis", at == n);
}
VC_PROOF(partition_shape)
{
    auto n = extent("n"), m = extent("m");
    check_partition<1>(n, m);
    check_partition<2>(n, m);
    check_partition<3>(n, m);
    check_partition<4>(n, m);
    check_partition<7>(n, m);
    check_partition<12>(n, m);
}
// disjointness over all of index space: an index belongs to exactly one part
VC_PROOF(partition_is_a_partition)
{
    auto n = extent("n", 1), m = extent("m", 1); auto i = below("i", n), j = below("j", m);
    auto parts = nd::partition_shape<8>(nd::make_shape(n, m));
    int owners = 0;
    for (std::size_t k = 0; k < 8; ++k) owners += parts[k].generates(nd::make_index(i, j)) ? 1 : 0;
    vc_assert("exactly one owner", owners == 1);
}
// groups of divvy: for any length and any number of groups
VC_PROOF(divvy)
{
    auto n = extent("n"); auto num = extent("num", 1); auto g = below("g", num);
    auto A = array1("A", n);
    auto G = A | nd::divvy(num);
    vc_assert("number of groups", G.size() == num);
    auto start = g * n / num, final = (g + 1) * n / num;
    vc_lemma("ordered", start <= final);
    vc_lemma("in range", g * n + n <= num * n);
    vc_lemma("final in range", final <= n);
    auto S = G(g);
    vc_assert("length", S.size() == final - start);
    auto k = below("k", S.size());
    vc_assert_eq("consecutive elements", S(k), A(start + k));
    vc_assert("inside", start + k < n);
}
VC_PROOF(divvy_cover)
{
    auto n = extent("n"); auto num = extent("num", 1); auto g = below("g", num);
    auto I = nd::index_array(n) | nd::map([] (auto i) { return i[0]; });
    auto G = I | nd::divvy(num);
    auto S = G(g);
    if (g == 0 && S.size() > 0) vc_assert("starts at the beginning", S(0) == 0);
    if (g + 1 == num && S.size() > 0) vc_assert("ends at the end", S(S.size() - 1) == n - 1);
    vc_assert("balanced", S.size() * num <= n + num - 1 && S.size() * num + num - 1 >= n);
}
VC_PROOF(divvy_adjacent)
{
    auto n = extent("n"); auto num = extent("num", 2); auto g = below("g", num);
    vc_assume(g + 1 < num);
    auto I = nd::index_array(n) | nd::map([] (auto i) { return i[0]; });
    auto G = I | nd::divvy(num);
    auto S = G(g), T = G(g + 1);
    // no gap and no overlap between consecutive groups
    vc_assert("adjacent", S(S.size()) == T(0));
}
// block decomposition: for any domain size and (bounded) 1 to 4 blocks per axis
VC_PROOF(bounded_block_patterns)
{
    auto n = extent("n", 1), m = extent("m", 1);
    auto bn = std::size_t(vc_choose("bn", 1, 4)), bm = std::size_t(vc_choose("bm", 1, 3));
    bool t = false;
    auto i = below("i", n), j = below("j", m);
    try
    {
        auto P = mara::create_access_pattern_array(nd::make_shape(n, m), nd::make_shape(bn, bm));
        vc_assert("one pattern per block", P.shape() == nd::make_shape(bn, bm));
        int owners = 0;
        std::size_t ai = 0;
        for (std::size_t a = 0; a < bn; ++a)
        {
            std::size_t aj = 0;
            for (std::size_t b = 0; b < bm; ++b)
            {
                auto p = P(a, b);
                vc_assert("starts where the previous block ends", p.start[0] == ai && p.start[1] == aj);
                vc_assert("not empty", p.final[0] > p.start[0] && p.final[1] > p.start[1]);
                vc_assert("no stride", p.jumps[0] == 1 && p.jumps[1] == 1);
                owners += p.generates(nd::make_index(i, j)) ? 1 : 0;
                aj = p.final[1];
            }
            vc_assert("covers axis 1", aj == m);
            ai = P(a, 0).final[0];
        }
        vc_assert("covers axis 0", ai == n);
        vc_assert("exactly one owner", owners == 1);
    }
    catch (const std::logic_error&) { t = true; }
    vc_assert("throws iff there are more blocks than cells", t == (bn > n || bm > m));
}
VC_PROOF(bounded_block_proposal)
{
    auto k = vc_choose("k", 1, 64);
    auto s = mara::propose_block_decomposition<2>(k);
    auto t = mara::propose_block_decomposition<3>(k);
    vc_assert("as many blocks as subdomains, rank 2", long(s.volume()) == k);
    vc_assert("as many blocks as subdomains, rank 3", long(t.volume()) == k);
}
VC_PROOF(bounded_prime_factors)
{
    auto k = vc_choose("k", 2, 96);
    auto f = mara::parallel::detail::prime_factors(int(k));
    long product = 1;
    for (std::size_t i = 0; i < f.size(); ++i)
    {
        long p = f(i);
        vc_assert("at least two", p >= 2);
        for (long d = 2; d * d <= p; ++d) vc_assert("prime", p % d != 0);
        product *= p;
    }
    vc_assert("product", product == k);
}
// evaluation by a number of threads is evaluation, whether they run when they are
// started or only when they are waited for (their regions are disjoint, see above)
template<std::size_t N> static void check_evaluation()
{
    auto n = std::size_t(vc_choose("n", 0, 5)), m = std::size_t(vc_choose("m", 1, 2));
#ifndef VC_NATIVE
    std::vc_thread::at_once = vc_choose("at once", 0, 1);
#endif
    auto A = array2("A", n, m);
    auto B = A | mara::evaluate_on<N>();
    vc_assert("shape", B.shape() == A.shape());
    for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < m; ++j) vc_assert_eq("value", B(i, j), A(i, j));
#ifndef VC_NATIVE
    vc_assert("all threads are joined", std::vc_thread::joined == int(N));
#endif
}
VC_PROOF(bounded_evaluate_on_threads)
{
    switch (vc_choose("threads", 0, 4))
    {
        case 0: check_evaluation<1>(); break;
        case 1: check_evaluation<2>(); break;
        case 2: check_evaluation<3>(); break;
        case 3: check_evaluation<4>(); break;
        default: check_evaluation<12>();
    }
}
