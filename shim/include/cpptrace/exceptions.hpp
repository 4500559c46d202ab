#pragma once
#include <cpptrace/cpptrace.hpp>
namespace cpptrace {
struct exception : std::exception {
    const char*               what() const noexcept override { return message(); }
    virtual const char*       message() const noexcept = 0;
    virtual stacktrace const& trace() const noexcept   = 0;
};
struct lazy_exception : exception {
    stacktrace        empty_;
    const char*       message() const noexcept override { return "cpptrace::lazy_exception"; }
    stacktrace const& trace() const noexcept override { return empty_; }
};
} // namespace cpptrace
