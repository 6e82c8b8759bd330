#pragma once
#include <nanobind/nanobind.h>
#include <nanobind/ndarray.h>
#include <nanobind/stl/string.h>
#include <nanobind/stl/vector.h>
#include <nanobind/stl/tuple.h>
#include <nanobind/stl/pair.h>
#include <complex>
#include <map>
#include <set>
#include <mutex>
#include <thread>
#include "z5/dataset.hxx"
namespace nb = nanobind;
using Shape = z5::types::ShapeType;

// wraps a z5 dataset opened through the public C++ factories
struct DS {
    std::unique_ptr<z5::Dataset> d;
    z5::Dataset & operator*() const { if(!d) throw std::runtime_error("closed"); return *d; }
    z5::Dataset * operator->() const { if(!d) throw std::runtime_error("closed"); return d.get(); }
};

void z5vt_reg_signed(nb::module_ &);
void z5vt_reg_unsigned(nb::module_ &);
void z5vt_reg_float(nb::module_ &);
