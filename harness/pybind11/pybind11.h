// What the Python bindings use of pybind11, declared so that they can be type-checked. Nothing here is ever run.
#pragma once
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

namespace pybind11 {
    class str {
    public:
        str(const char *);
        str(const std::string &);
    };

    class object {
    public:
        template<typename T>
        object &operator=(const T &) { return *this; }
    };

    class module_ {
    public:
        object attr(const char *name);
    };

    using module = module_;

    enum class return_value_policy {
        automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal
    };

    template<typename T>
    struct arg_v {
        const char *name;
        T value;
    };

    struct arg {
        const char *name;

        explicit arg(const char *name_) : name(name_) {}

        template<typename T>
        arg_v<std::decay_t<T>> operator=(T &&value) const {
            return arg_v<std::decay_t<T>>{name, value};
        }
    };

    template<std::size_t...>
    struct keep_alive {
    };

    template<typename T>
    struct call_guard {
    };

    class gil_scoped_release {
    };

    template<typename F>
    struct factory {
        F function;
    };

    template<typename F>
    factory<std::decay_t<F>> init(F &&f) {
        return factory<std::decay_t<F>>{f};
    }

    template<typename ...T>
    class class_ {
    public:
        const char *name;

        class_(module_ &, const char *name_) : name(name_) {}

        class_(module_ &, const char *name_, const char *) : name(name_) {}

        template<typename F, typename ...Extra>
        class_ &def(const char *method, F &&f, const Extra &...extra) { return *this; }

        template<typename F, typename ...Extra>
        class_ &def(const factory<F> &f, const Extra &...extra) { return *this; }

        template<typename F, typename ...Extra>
        class_ &def_readonly(const char *method, F f, const Extra &...extra) { return *this; }

        template<typename F, typename ...Extra>
        class_ &def_property_readonly(const char *method, F &&f, const Extra &...extra) { return *this; }

        template<typename F, typename ...Extra>
        class_ &def_static(const char *method, F &&f, const Extra &...extra) { return *this; }
    };
}

#define PYBIND11_MODULE(name, variable) void pybind11_module_##name(pybind11::module_ &variable)
