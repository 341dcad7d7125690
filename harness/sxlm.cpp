#include <unsupported/Eigen/LevenbergMarquardt>
namespace sxlm {
int mode = 0;
double g_state[3] = { 0, 0, 0 }, initial[3] = { 0, 0, 0 };
bool g_fail = false;
long nbins = -1;
std::vector<double> hist;
int probeLo = 0, probeHi = -1;
std::vector<int> bins;
std::vector<bool> found;
}
