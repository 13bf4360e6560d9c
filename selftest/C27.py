F = "tcmalloc/internal/clock.h"
M = [
 ("no-sentinel", "bad", F, "    if (now_32 == 0) now_32 = 1;", "    if (now_32 == 1) now_32 = 1;"),
 ("sent-le1", "bad", F, "    if (now_32 == 0) now_32 = 1;", "    if (now_32 <= 5) now_32 = 1;"),
 ("shift", "bad", F, "static_cast<uint32_t>(clock.now() >> kShift)", "static_cast<uint32_t>(clock.now() >> (kShift - 1))"),
 ("trunc-first", "bad", F, "static_cast<uint32_t>(clock.now() >> kShift)", "(static_cast<uint32_t>(clock.now()) >> kShift)"),
 ("reset1", "bad", F, "val_.store(0,", "val_.store(1,"),
 ("elapsed-wide", "bad", F, "const uint32_t elapsed_ticks = now_32 - last;", "const int64_t elapsed_ticks = int64_t{now_32} - last;"),
 ("elapsed-wide2", "bad", F, "const uint32_t elapsed_ticks = now_32 - last;", "const uint32_t elapsed_ticks = now_32 > last ? now_32 - last : 0;"),
 ("elapsed-snapwide", "ok", F, "const uint32_t now_32 = static_cast<uint32_t>(snap.now >> kShift);", "const uint64_t now_32 = static_cast<uint64_t>(snap.now >> kShift);"),
 ("cmp-abs", "bad", F, "return static_cast<int32_t>(a - b) >= 0;", "return a >= b;"),
 ("cmp-gt", "bad", F, "return static_cast<int32_t>(a - b) >= 0;", "return static_cast<int32_t>(a - b) > 0;"),
 ("cmp-64", "bad", F, "return static_cast<int32_t>(a - b) >= 0;", "return static_cast<int64_t>(a) - static_cast<int64_t>(b) >= 0;"),
 ("zero-dur", "bad", F, "if (last == 0) return absl::InfiniteDuration();", "if (last == 0) return absl::ZeroDuration();"),
 ("zero-1", "bad", F, "if (last == 0) return absl::InfiniteDuration();", "if (last <= 1) return absl::InfiniteDuration();"),
 ("ok-ternary", "ok", F, "    if (now_32 == 0) now_32 = 1;  // Reserve 0 as the uninitialized sentinel.\n    val_.store(now_32, std::memory_order_relaxed);", "    val_.store(now_32 != 0 ? now_32 : 1u, std::memory_order_relaxed);"),
 ("ok-two-stores", "ok", F, "    if (now_32 == 0) now_32 = 1;  // Reserve 0 as the uninitialized sentinel.\n    val_.store(now_32, std::memory_order_relaxed);", "    if (now_32 != 0) { val_.store(now_32, std::memory_order_relaxed); return; }\n val_.store(1, std::memory_order_relaxed);"),
 ("ok-max", "ok", F, "    if (now_32 == 0) now_32 = 1;  // Reserve 0 as the uninitialized sentinel.\n", "    now_32 += (now_32 == 0);\n"),
 ("ok-cmp", "ok", F, "return static_cast<int32_t>(a - b) >= 0;", "return (a - b) < (uint32_t{1} << 31);"),
 ("ok-cmp2", "ok", F, "return static_cast<int32_t>(a - b) >= 0;", "const int32_t d = static_cast<int32_t>(b - a); return d <= 0;"),
 ("ok-helper", "ok", F, "    const double elapsed_cycles =\n        static_cast<double>(elapsed_ticks) * (1 << kShift);\n    return absl::Seconds(elapsed_cycles / snap.freq);", "    return ToDur(elapsed_ticks, snap.freq);\n  }\n  static absl::Duration ToDur(uint32_t t, double fq) {\n    constexpr double kScale = static_cast<double>(int64_t{1} << kShift);\n    return absl::Seconds(kScale * t / fq);"),
]
