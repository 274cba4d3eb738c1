// Stand-in for jamolnng/argparse (an empty submodule in this sandbox), the subset of its API that
// src/pipelines/slicer.cpp uses. Options are -x / --name; an option takes the following words that are not
// options as its value(s); unknown options are an error.
#pragma once
#include <cctype>
#include <deque>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
namespace argparse {
class ArgumentParser {
public:
    class Result {
    public:
        Result() = default;
        explicit Result(std::string e) : err_(true), what_(std::move(e)) {}
        operator bool() const { return err_; }
        const std::string& what() const { return what_; }
        friend std::ostream& operator<<(std::ostream& os, const Result& r) { return os << r.what_; }
    private:
        bool err_ = false;
        std::string what_;
    };
    class Argument {
    public:
        Argument& name(const std::string& n) { names_.push_back(n); return *this; }
        Argument& names(std::vector<std::string> n) { names_.insert(names_.end(), n.begin(), n.end()); return *this; }
        Argument& description(const std::string& d) { desc_ = d; return *this; }
        Argument& required(bool r = true) { required_ = r; return *this; }
        bool found() const { return found_; }
    private:
        friend class ArgumentParser;
        std::vector<std::string> names_;
        std::string desc_;
        bool required_ = false;
        bool found_ = false;
        std::vector<std::string> values_;
    };
    ArgumentParser(std::string bin, std::string desc) : bin_(std::move(bin)), desc_(std::move(desc)) {}
    Argument& add_argument() { args_.emplace_back(); return args_.back(); }
    void enable_help() { add_argument().names({"-h", "--help"}).description("Shows this page"); }
    Result parse(int argc, const char* argv[]) {
        Argument* cur = nullptr;
        for (int i = 1; i < argc; ++i) {
            std::string w = argv[i];
            if (w.empty()) continue;
            if (w.size() > 1 && w[0] == '-' && !(std::isdigit(static_cast<unsigned char>(w[1])))) {
                cur = find_word(w);
                if (!cur) return Result("Invalid argument: " + w);
                cur->found_ = true;
            } else {
                if (!cur) return Result("Unexpected value: " + w);
                cur->values_.push_back(w);
            }
        }
        for (auto& a : args_) if (a.names_.front() == "-h" && a.found_) return Result();
        for (auto& a : args_)
            if (a.required_ && !a.found_) return Result("Required argument not found: " + a.names_.front());
        return Result();
    }
    bool exists(const std::string& n) const { auto* a = find_name(n); return a && a->found_; }
    template <class T> T get(const std::string& n) const {
        auto* a = find_name(n);
        std::string v = a && !a->values_.empty() ? a->values_.front() : std::string();
        if constexpr (std::is_same_v<T, std::string>) return v;
        else {
            T t = T();
            std::istringstream in(v);
            in >> t >> std::ws;
            return t;
        }
    }
    void print_help() const {
        std::cout << "Usage: " << bin_ << " [options...]\nOptions:\n";
        for (auto& a : args_) {
            std::string s;
            for (auto& n : a.names_) s += (s.empty() ? "" : ", ") + n;
            std::cout << "    " << s;
            for (size_t i = s.size(); i < 23; ++i) std::cout << ' ';
            std::cout << a.desc_ << "\n";
        }
        std::cout << std::flush;
    }
private:
    static std::string strip(const std::string& s) { size_t i = s.find_first_not_of('-'); return i == std::string::npos ? s : s.substr(i); }
    const Argument* find_name(const std::string& n) const {
        for (auto& a : args_) for (auto& x : a.names_) if (strip(x) == n) return &a;
        return nullptr;
    }
    Argument* find_word(const std::string& w) {
        for (auto& a : args_) for (auto& x : a.names_) if (x == w) return &a;
        return nullptr;
    }
    std::string bin_, desc_;
    std::deque<Argument> args_;
};
}
