// Instantiates the templates of libMaRC that no translation unit of the
// program instantiates completely, so that they are analysed as well.
#include "marc/extrema.h"
#include "marc/Map_traits.h"
#include "marc/plot_info.h"
#include "marc/utility.h"
#include "marc/Matrix.h"
#include "marc/Vector.h"
#include "marc/Mathematics.h"
#include "marc/Validate.h"
#include "marc/BodyData.h"
#include "marc/scale_and_offset.h"
#include <vector>
#include <cstdint>
namespace {
template <typename T> void types() {
    using namespace MaRC;
    extrema<T> a, b(1.0, 2.0), c(a);
    (void) a.update(b); (void) a.in_range(1.5); (void) a.is_valid(); a = b;
    double s = 0, o = 0; (void) scale_and_offset<T>(0.0, 1.0, s, o);
}
void all() {
    types<std::uint8_t>(); types<std::int16_t>(); types<std::int32_t>();
    types<std::int64_t>(); types<float>(); types<double>();
    std::vector<double> v(4);
    MaRC::invert_samples(v, 2, 2); MaRC::invert_lines(v, 2, 2);
    using namespace MaRC;
    Matrix<double, 3, 3> m, n; Vector<double, 3> x, y;
    (void) (m * n); (void) (m * x); (void) dot_product(x, y); (void) x.magnitude();
    (void) (x - y); (void) (x + y); (void) (m + n); (void) (m - n);
    (void) (m == n);
}
}
void (*marc_verif_instantiate)() = all;
