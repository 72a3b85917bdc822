// The statistics (chi-squared, p-value, degeneracy) are not what this harness is about: inside the executor they return arbitrary constants.
#pragma once
#include <cstdint>
#include <utility>
template <typename T> class NDArray;
double hx_chi_d(const NDArray<int64_t>&, const NDArray<double>&) asm("override._Z5chiSqIldEdRK7NDArrayIT_ERKS0_IT0_E");
double hx_chi_d(const NDArray<int64_t>&, const NDArray<double>&) { return 1.0; }
std::pair<double, bool> hx_pv(uint32_t, double) asm("override._Z6pValuejd");
std::pair<double, bool> hx_pv(uint32_t, double) { return {0.5, true}; }
double hx_deg(const NDArray<int64_t>&) asm("override._Z10degeneracyRK7NDArrayIlE");
double hx_deg(const NDArray<int64_t>&) { return 1.0; }
