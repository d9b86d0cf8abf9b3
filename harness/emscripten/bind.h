// What the JavaScript bindings use of emscripten, declared so that they can be type-checked. Nothing here is ever run.
#pragma once
#include <algorithm>
#include <functional>
#include <memory>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

namespace emscripten {
    class val {
        val();

    public:
        val(const val &);

        template<typename T>
        explicit val(T &&value);

        val &operator=(const val &);

        static val array();

        static val object();

        static val undefined();

        static val null();

        static val global(const char *name = 0);

        template<typename K>
        val operator[](const K &key) const;

        template<typename K, typename V>
        void set(const K &key, const V &value);

        template<typename ...Args>
        val operator()(Args &&...args) const;

        template<typename ...Args>
        val new_(Args &&...args) const;

        template<typename R, typename ...Args>
        R call(const char *name, Args &&...args) const;

        template<typename T>
        T as() const;

        bool isUndefined() const;

        bool isNull() const;

        bool isArray() const;
    };

    template<typename F>
    F optional_override(F f) { return f; }

    template<typename ...B>
    struct base {
    };

    template<int I>
    struct index {
    };

    struct no_base {
    };

    template<typename T, typename B = no_base>
    class class_ {
    public:
        const char *name;

        explicit class_(const char *name_) : name(name_) {}

        template<typename F, typename ...Policies>
        const class_ &constructor(F f, Policies...) const { return *this; }

        template<typename F, typename ...Policies>
        const class_ &function(const char *method, F f, Policies...) const { return *this; }

        template<typename F, typename ...Policies>
        const class_ &class_function(const char *method, F f, Policies...) const { return *this; }

        template<typename F, typename ...Policies>
        const class_ &property(const char *field, F f, Policies...) const { return *this; }
    };

    template<typename T>
    class value_object {
    public:
        const char *name;

        explicit value_object(const char *name_) : name(name_) {}

        template<typename F>
        value_object &field(const char *field_, F f) { return *this; }
    };

    template<typename T>
    class value_array {
    public:
        const char *name;

        explicit value_array(const char *name_) : name(name_) {}

        template<int I>
        value_array &element(index<I>) { return *this; }

        template<typename F>
        value_array &element(F f) { return *this; }
    };

    template<typename R, typename ...Args>
    R select_overload_(R (*)(Args...));
}

#define EMSCRIPTEN_BINDINGS(name) void emscripten_bindings_##name()
