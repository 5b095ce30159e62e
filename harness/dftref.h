/*
 * Reference discrete Fourier transforms, from the definition, in extended precision.
 */
#ifndef VERIF_DFTREF_H
#define VERIF_DFTREF_H

#include "nd.h"

#include <complex>

namespace dftref {

using Complex = std::complex<long double>;
using Values = std::vector<Complex>;

/// out[k] = sum in[n] exp(sign 2 i pi sum_j k_j n_j / shape_j), first axis fastest.
inline Values transform(const Values& in, const nd::Pos& shape, int sign) {
  const long double pi = 3.141592653589793238462643383279502884L;
  const auto domain = nd::domain(shape);
  // Roots of unity, per axis
  std::vector<Values> roots(shape.size());
  for (std::size_t j = 0; j < shape.size(); ++j) {
    for (long i = 0; i < shape[j]; ++i) {
      roots[j].push_back(Complex(cosl(2 * pi * i / shape[j]), sign * sinl(2 * pi * i / shape[j])));
    }
  }
  Values out;
  for (const auto& k : domain) {
    long double re = 0, im = 0;
    std::size_t i = 0;
    for (const auto& n : domain) {
      long double c = 1, s = 0;
      for (std::size_t j = 0; j < shape.size(); ++j) {
        const auto& r = roots[j][(k[j] * n[j]) % shape[j]];
        const long double t = c * r.real() - s * r.imag();
        s = c * r.imag() + s * r.real();
        c = t;
      }
      re += in[i].real() * c - in[i].imag() * s;
      im += in[i].real() * s + in[i].imag() * c;
      ++i;
    }
    out.push_back(Complex(re, im));
  }
  return out;
}

/// Same transform, axis by axis, for larger signals.
inline Values separableTransform(Values in, const nd::Pos& shape, int sign) {
  const long double pi = 3.141592653589793238462643383279502884L;
  long stride = 1;
  for (std::size_t j = 0; j < shape.size(); ++j) {
    const long n = shape[j];
    Values roots;
    for (long i = 0; i < n; ++i) {
      roots.push_back(Complex(cosl(2 * pi * i / n), sign * sinl(2 * pi * i / n)));
    }
    Values line(n);
    for (long start = 0; start < static_cast<long>(in.size()); ++start) {
      if (start / stride % n) {
        continue;
      }
      for (long k = 0; k < n; ++k) {
        long double re = 0, im = 0;
        for (long i = 0; i < n; ++i) {
          const auto& r = roots[k * i % n];
          const auto& v = in[start + i * stride];
          re += v.real() * r.real() - v.imag() * r.imag();
          im += v.real() * r.imag() + v.imag() * r.real();
        }
        line[k] = Complex(re, im);
      }
      for (long k = 0; k < n; ++k) {
        in[start + k * stride] = line[k];
      }
    }
    stride *= n;
  }
  return in;
}

/// Shape of the non-redundant half of the spectrum.
inline nd::Pos halfShape(nd::Pos shape) {
  shape[0] = shape[0] / 2 + 1;
  return shape;
}

/// Non-redundant half of a spectrum.
inline Values half(const Values& in, const nd::Pos& shape) {
  Values out;
  for (const auto& p : nd::domain(halfShape(shape))) {
    out.push_back(in[nd::offset(shape, p)]);
  }
  return out;
}

/// Largest modulus.
inline long double scale(const Values& in) {
  long double out = 0;
  for (const auto& e : in) {
    out = std::max(out, std::abs(e));
  }
  return out;
}

template <typename T>
bool close(const T& got, const Complex& expected, long double scale) {
  const std::complex<double> c = got;
  return std::abs(Complex(c.real(), c.imag()) - expected) <= 1e-11L * (1 + scale);
}

} // namespace dftref

#endif
