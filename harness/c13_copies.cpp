#include "pair.hpp"
TRK_HEAP
using trk::Tok; using A = trk::TAlloc<Tok>;
#ifdef CHUNKS
using Deq = DeqAd<Tok, A>; using QD = QueAd<Tok, cest::deque<Tok, A>>;
MC_SCENARIO(pair_deque, 0, 0, 8, 16) { pairs<Deq>(mc::thorough ? 3 : 2, 1); }
MC_SCENARIO(pair_queue_deque, 0, 0, 4, 8) { pairs<QD>(mc::thorough ? 6 : 4, mc::thorough ? 3 : 2); }
MC_SCENARIO(sizes_deque, 0, 0, 2, 4) { sizes<Deq>(mc::thorough ? 30 : 12, 1); }
MC_SCENARIO(sizes_queue, 0, 0, 2, 4) { sizes<QD>(mc::thorough ? 20 : 8, 1); }
MC_SCENARIO(far_deque, 0, 0, 2, 4) { sizes<Deq>(mc::thorough ? 513 : 129, 1, true); }
MC_SCENARIO(far_queue, 0, 0, 2, 4) { sizes<QD>(mc::thorough ? 257 : 65, 1, true); }
#elif defined(BIGCHUNKS)
using Deq = DeqAd<int, std::allocator<int>>;
MC_SCENARIO(big_deque, 0, 0, 2, 4) {
  Model m[2]; int next = 1; Deq::C v[2]; static const int ns[] = {0, 1, 511, 512, 513, 1023, 1024, 1025, 1536, 2050};
  for (int i = 0; i < 2; i++) { int n = mc::pick(ns), side = mc::choose(2); mc::tr("%d elements, side %d", n, side);
    for (int k = 0; k < n; k++) if (side) { v[i].push_front(next); m[i].push_back(next++); } else { v[i].push_back(next); m[i].push_back(next++); }
    if (side) std::reverse(m[i].begin(), m[i].end()); }
  mc::op(); v[1] = static_cast<const Deq::C &>(v[0]); m[1] = m[0]; Deq::observe(v[1], m[1]); mc::state(hmodel(m[1]));
  v[1].push_back(-1); m[1].push_back(-1); v[1].push_front(-2); m[1].insert(m[1].begin(), -2); Deq::observe(v[0], m[0]); Deq::observe(v[1], m[1]);
  Deq::C w(v[1]); w.pop_back(); Deq::observe(v[1], m[1]); m[1].pop_back(); Deq::observe(w, m[1]);
}
#else
using Vec = VecAd<Tok, A>; using Lst = ListAd<Tok, A>; using Fwd = FwdAd<Tok, A>; using QL = QueAd<Tok, cest::list<Tok, A>>;
using Set = TreeAd<tree::SetOf<Tok, std::less<Tok>, true>, 4>; using Map = TreeAd<tree::MapOf<Tok, std::less<Tok>, true, Tok>, 3>;
using Str = StrAd<trk::TAlloc<char>, 1>;
MC_SCENARIO(pair_vector, 0, 0, 8, 16) { pairs<Vec>(2, mc::thorough ? 2 : 1); }
MC_SCENARIO(pair_vector3, 0, 0, 2, 8) { pairs<Vec>(mc::thorough ? 5 : 3, 1); }
MC_SCENARIO(pair_list, 0, 0, 4, 16) { pairs<Lst>(mc::thorough ? 3 : 2, mc::thorough ? 2 : 2); }
MC_SCENARIO(pair_list3, 0, 0, 2, 8) { pairs<Lst>(mc::thorough ? 6 : 4, 1); }
MC_SCENARIO(pair_forward_list, 0, 0, 4, 16) { pairs<Fwd>(mc::thorough ? 3 : 2, 2); }
MC_SCENARIO(pair_forward_list3, 0, 0, 2, 8) { pairs<Fwd>(mc::thorough ? 6 : 4, 1); }
MC_SCENARIO(pair_queue_list, 0, 0, 4, 8) { pairs<QL>(mc::thorough ? 6 : 4, mc::thorough ? 3 : 2); }
MC_SCENARIO(pair_set, 0, 0, 4, 16) { pairs<Set>(mc::thorough ? 4 : 3, 1); }
MC_SCENARIO(pair_map, 0, 0, 4, 16) { pairs<Map>(mc::thorough ? 4 : 3, 1); }
MC_SCENARIO(pair_string, 0, 0, 4, 16) { pairs<Str>(3, mc::thorough ? 2 : 1); }
MC_SCENARIO(sizes_vector, 0, 0, 1, 4) { sizes<Vec>(mc::thorough ? 40 : 17, 1); }
MC_SCENARIO(sizes_list, 0, 0, 1, 4) { sizes<Lst>(mc::thorough ? 20 : 8, 1); }
MC_SCENARIO(sizes_forward_list, 0, 0, 1, 4) { sizes<Fwd>(mc::thorough ? 20 : 8, 1); }
MC_SCENARIO(sizes_set, 0, 0, 1, 4) { sizes<Set>(mc::thorough ? 23 : 12, 1); }
MC_SCENARIO(sizes_map, 0, 0, 1, 4) { sizes<Map>(mc::thorough ? 23 : 12, 1); }
MC_SCENARIO(sizes_string, 0, 0, 1, 4) { sizes<Str>(mc::thorough ? 60 : 24, 1); }
MC_SCENARIO(far_vector, 0, 0, 1, 4) { sizes<Vec>(mc::thorough ? 2049 : 257, 1, true); }
MC_SCENARIO(far_list, 0, 0, 1, 4) { sizes<Lst>(mc::thorough ? 1025 : 129, 1, true); }
MC_SCENARIO(far_forward_list, 0, 0, 1, 4) { sizes<Fwd>(mc::thorough ? 1025 : 129, 1, true); }
MC_SCENARIO(far_set, 0, 0, 1, 4) { sizes<Set>(mc::thorough ? 1025 : 257, 1, true); }
MC_SCENARIO(far_map, 0, 0, 1, 4) { sizes<Map>(mc::thorough ? 1025 : 257, 1, true); }
MC_SCENARIO(far_string, 0, 0, 1, 4) { sizes<Str>(mc::thorough ? 4097 : 513, 1, true); }
#endif
MC_MAIN
