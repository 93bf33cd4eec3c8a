// Reference geometry of the harness.  Independent of the library under test:
// no header of /repo is included here.
#pragma once
#include <cmath>
#include <cstdint>
#include <string>
#include <vector>

namespace ref {

struct P { double x = 0, y = 0; };
inline P operator+(P a, P b) { return {a.x + b.x, a.y + b.y}; }
inline P operator-(P a, P b) { return {a.x - b.x, a.y - b.y}; }
inline P operator*(P a, double k) { return {a.x * k, a.y * k}; }
inline bool operator==(P a, P b) { return a.x == b.x && a.y == b.y; }
inline bool operator!=(P a, P b) { return !(a == b); }

struct Seg { bool cubic = false; P a, b, c, d; };   // line: a -> d
P at(const Seg& s, double t);
P deriv(const Seg& s, double t);

enum Kind : int { SUBJECT = 0, CLIP = 1 };
enum Boolean : int { OP_NONE = 0, OP_INTERSECTION, OP_UNION, OP_DIFFERENCE, OP_XOR };
enum Rule : int { EVEN_ODD = 0, NON_ZERO, POSITIVE, NEGATIVE };

// One element of a drawing stream: what a reader delivers to the library.
struct Elem { char k = 'm'; P p1, p2, to; };          // 'm' 'l' 'c'

// One input contour: element 0 is 'm'.
struct Contour { int kind = SUBJECT; std::vector<Elem> e; };

// Closed list of segments of a contour (implicit closing line added).
std::vector<Seg> segs_of(const Contour& c);

// Region oracle -------------------------------------------------------------
struct Crossing { double x; int dir; };
// crossings of all segments with the horizontal line y (sorted by x)
void crossings(const std::vector<Seg>& s, double y, std::vector<Crossing>& out);
bool filled(int w, int rule);

struct RegionDiff { bool ok = true; double y = 0, len = 0; std::string what; };
// Compares the region of `out` (closed contours as emitted) with the boolean
// of subject and clip on a set of scan lines that visits the bands between
// consecutive events.  tol: largest admitted difference in length per line.
RegionDiff compare_region(const std::vector<Seg>& subj, const std::vector<Seg>& clip, int op, int rule,
                          const std::vector<Seg>& out, uint64_t seed, int max_lines, double scale);

// Two outputs as regions (both read as non-zero).
RegionDiff compare_outputs(const std::vector<Seg>& a, const std::vector<Seg>& b, uint64_t seed, int max_lines,
                           double scale);

// true when the contours are in general position with a margin (see .cpp)
bool general_position(const std::vector<Contour>& cs, double scale, std::string* why = nullptr);

// PRNG: splitmix64; the only randomness in the harness.
struct Rng {
  uint64_t s;
  // the seed is hashed first: splitmix streams of neighbouring raw seeds overlap
  static uint64_t mix(uint64_t z) {
    z = (z ^ (z >> 33)) * 0xFF51AFD7ED558CCDull;
    z = (z ^ (z >> 33)) * 0xC4CEB9FE1A85EC53ull;
    return z ^ (z >> 33);
  }
  explicit Rng(uint64_t seed) : s(mix(seed + 0x5851F42D4C957F2Dull)) { next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint32_t below(uint32_t n) { return n ? uint32_t((unsigned __int128)next() * n >> 64) : 0; }
  int range(int lo, int hi) { return lo + int(below(uint32_t(hi - lo + 1))); }
  double unit() { return double(next() >> 11) * 0x1p-53; }
  bool chance(double p) { return unit() < p; }
};

// Scene generator -----------------------------------------------------------
enum Family : int { F_POLY = 0, F_CUBIC, F_MIX, F_RECT, F_RING, F_STAR, F_GRID, F_BLEND, F_BLEND_LINES, F_MANY, F_LONG, F_LENS, F_BENT, F_QUAD, F_COUNT };
// contours in general position; `lines_only` removes curved families
std::vector<Contour> make_scene(Rng& r, int family, int ncontours, double* scale_out);
bool family_has_curves(int family);

}  // namespace ref
