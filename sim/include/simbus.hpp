// In-memory stand-in for libsystemd's sd-bus + sdbusplus, used only by the
// model checker.  It implements the D-Bus semantics the daemon depends on
// (typed marshalling, match rules, Properties / ObjectMapper / ObjectManager
// method calls, object registration) deterministically inside one process, so
// that every interleaving of bus traffic with the control loop can be explored.
#pragma once

#include <systemd/sd-bus.h>

#include <algorithm>
#include <array>
#include <cerrno>
#include <chrono>
#include <cstdint>
#include <cstring>
#include <deque>
#include <exception>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <span>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>

namespace sdbusplus
{
namespace exception
{
struct exception : public std::exception
{
    virtual const char* name() const noexcept = 0;
    virtual const char* description() const noexcept = 0;
    const char* what() const noexcept override = 0;
    virtual int get_errno() const noexcept
    {
        return EIO;
    }
};
struct internal_exception : public exception
{};
class SdBusError final : public internal_exception
{
  public:
    SdBusError(int e, const char* prefix) : err(e)
    {
        nm = e == ENOENT || e == EBADR
                 ? "org.freedesktop.DBus.Error.UnknownObject"
                 : "System.Error.E" + std::to_string(e);
        desc = std::string(prefix);
        full = nm + ": " + desc;
    }
    SdBusError(int e, std::string prefix) : SdBusError(e, prefix.c_str()) {}
    const char* name() const noexcept override
    {
        return nm.c_str();
    }
    const char* description() const noexcept override
    {
        return desc.c_str();
    }
    const char* what() const noexcept override
    {
        return full.c_str();
    }
    int get_errno() const noexcept override
    {
        return err;
    }

  private:
    int err;
    std::string nm, desc, full;
};
class InvalidEnumString final : public internal_exception
{
  public:
    static constexpr auto errName =
        "xyz.openbmc_project.sdbusplus.Error.InvalidEnumString";
    const char* name() const noexcept override
    {
        return errName;
    }
    const char* description() const noexcept override
    {
        return "An enumeration mapping was attempted for which no valid enumeration value exists.";
    }
    const char* what() const noexcept override
    {
        return errName;
    }
};
class UnpackPropertyError final : public internal_exception
{
  public:
    const char* name() const noexcept override
    {
        return "UnpackPropertyError";
    }
    const char* description() const noexcept override
    {
        return "UnpackPropertyError";
    }
    const char* what() const noexcept override
    {
        return "UnpackPropertyError";
    }
};
} // namespace exception
using exception_t = exception::exception;

namespace message
{
namespace details
{
struct string_wrapper
{
    std::string str;
    string_wrapper() = default;
    string_wrapper(const std::string& s) : str(s) {}
    string_wrapper(std::string&& s) : str(std::move(s)) {}
    string_wrapper(const char* s) : str(s) {}
    operator const std::string&() const volatile&
    {
        return const_cast<const string_wrapper*>(this)->str;
    }
    operator std::string&&() &&
    {
        return std::move(str);
    }
    bool operator==(const string_wrapper& r) const
    {
        return str == r.str;
    }
    bool operator<(const string_wrapper& r) const
    {
        return str < r.str;
    }
    bool operator==(const std::string& r) const
    {
        return str == r;
    }
};
} // namespace details
struct object_path : details::string_wrapper
{
    using details::string_wrapper::string_wrapper;
    std::string filename() const
    {
        auto p = str.rfind('/');
        return p == std::string::npos ? std::string{} : str.substr(p + 1);
    }
    object_path parent_path() const
    {
        auto p = str.rfind('/');
        if (p == std::string::npos || p == 0)
        {
            return object_path("/");
        }
        return object_path(str.substr(0, p));
    }
    object_path operator/(std::string_view e) const
    {
        return object_path(str + (str.ends_with('/') ? "" : "/") +
                           std::string(e));
    }
    bool operator==(const object_path& r) const
    {
        return str == r.str;
    }
    bool operator<(const object_path& r) const
    {
        return str < r.str;
    }
};
struct signature : details::string_wrapper
{
    using details::string_wrapper::string_wrapper;
};
} // namespace message
using object_path = message::object_path;
} // namespace sdbusplus

template <>
struct std::hash<sdbusplus::message::object_path>
{
    size_t operator()(const sdbusplus::message::object_path& p) const
    {
        return std::hash<std::string>{}(p.str);
    }
};

namespace simbus
{
using sdbusplus::exception::SdBusError;

// ---------------------------------------------------------------- values ---
struct Val
{
    std::string sig; // complete D-Bus signature of this value
    std::variant<std::monostate, bool, uint8_t, int16_t, uint16_t, int32_t,
                 uint32_t, int64_t, uint64_t, double, std::string>
        b;
    std::vector<Val> kids; // array elements / struct fields / dict k,v / v
};

template <typename T>
struct is_vec : std::false_type
{};
template <typename... A>
struct is_vec<std::vector<A...>> : std::true_type
{};
template <typename... A>
struct is_vec<std::list<A...>> : std::true_type
{};
template <typename... A>
struct is_vec<std::set<A...>> : std::true_type
{};
template <typename T, size_t N>
struct is_vec<std::array<T, N>> : std::true_type
{};
template <typename T>
struct is_pair : std::false_type
{};
template <typename A, typename B>
struct is_pair<std::pair<A, B>> : std::true_type
{};
template <typename T>
struct is_tuple : std::false_type
{};
template <typename... A>
struct is_tuple<std::tuple<A...>> : std::true_type
{};
template <typename T>
struct is_variant : std::false_type
{};
template <typename... A>
struct is_variant<std::variant<A...>> : std::true_type
{};
template <typename T>
concept MapLike = requires {
    typename T::key_type;
    typename T::mapped_type;
};
template <typename T>
concept StrLike = std::is_same_v<T, std::string> ||
                  std::is_same_v<T, std::string_view> ||
                  std::is_same_v<T, const char*> || std::is_same_v<T, char*>;

template <typename T0>
std::string sigOf()
{
    using T = std::remove_cvref_t<T0>;
    if constexpr (std::is_same_v<T, bool>)
        return "b";
    else if constexpr (std::is_enum_v<T>)
        return "s";
    else if constexpr (std::is_same_v<T, double> || std::is_same_v<T, float>)
        return "d";
    else if constexpr (std::is_integral_v<T>)
    {
        if constexpr (sizeof(T) == 1)
            return "y";
        else if constexpr (sizeof(T) == 2)
            return std::is_signed_v<T> ? "n" : "q";
        else if constexpr (sizeof(T) == 4)
            return std::is_signed_v<T> ? "i" : "u";
        else
            return std::is_signed_v<T> ? "x" : "t";
    }
    else if constexpr (StrLike<T> || std::is_array_v<T>)
        return "s";
    else if constexpr (std::is_same_v<T, sdbusplus::message::object_path>)
        return "o";
    else if constexpr (std::is_same_v<T, sdbusplus::message::signature>)
        return "g";
    else if constexpr (is_variant<T>::value)
        return "v";
    else if constexpr (MapLike<T>)
        return "a{" + sigOf<typename T::key_type>() +
               sigOf<typename T::mapped_type>() + "}";
    else if constexpr (is_vec<T>::value)
        return "a" + sigOf<typename T::value_type>();
    else if constexpr (is_pair<T>::value)
        return "(" + sigOf<typename T::first_type>() +
               sigOf<typename T::second_type>() + ")";
    else if constexpr (is_tuple<T>::value)
        return []<size_t... I>(std::index_sequence<I...>) {
            return "(" +
                   (std::string() + ... +
                    sigOf<std::tuple_element_t<I, T>>()) +
                   ")";
        }(std::make_index_sequence<std::tuple_size_v<T>>{});
    else
        static_assert(sizeof(T) == 0, "unsupported D-Bus type");
}

template <typename T0>
Val toVal(const T0& x)
{
    using T = std::remove_cvref_t<T0>;
    Val v;
    v.sig = sigOf<T>();
    if constexpr (std::is_same_v<T, float>)
        v.b = static_cast<double>(x);
    else if constexpr (std::is_enum_v<T>)
        v.b = convertForMessage(x);
    else if constexpr (std::is_array_v<T>)
        v.b = std::string(x);
    else if constexpr (StrLike<T>)
        v.b = std::string(x);
    else if constexpr (std::is_integral_v<T> && !std::is_same_v<T, bool>)
    {
        if constexpr (sizeof(T) == 1)
            v.b = static_cast<uint8_t>(x);
        else if constexpr (sizeof(T) == 2 && std::is_signed_v<T>)
            v.b = static_cast<int16_t>(x);
        else if constexpr (sizeof(T) == 2)
            v.b = static_cast<uint16_t>(x);
        else if constexpr (sizeof(T) == 4 && std::is_signed_v<T>)
            v.b = static_cast<int32_t>(x);
        else if constexpr (sizeof(T) == 4)
            v.b = static_cast<uint32_t>(x);
        else if constexpr (std::is_signed_v<T>)
            v.b = static_cast<int64_t>(x);
        else
            v.b = static_cast<uint64_t>(x);
    }
    else if constexpr (std::is_same_v<T, bool> || std::is_same_v<T, double>)
        v.b = x;
    else if constexpr (std::is_same_v<T, sdbusplus::message::object_path> ||
                       std::is_same_v<T, sdbusplus::message::signature>)
        v.b = x.str;
    else if constexpr (is_variant<T>::value)
        std::visit([&](const auto& y) { v.kids.push_back(toVal(y)); }, x);
    else if constexpr (MapLike<T>)
    {
        for (const auto& [k, m] : x)
        {
            Val e;
            e.kids.push_back(toVal(k));
            e.kids.push_back(toVal(m));
            v.kids.push_back(std::move(e));
        }
    }
    else if constexpr (is_vec<T>::value)
    {
        for (const auto& e : x)
            v.kids.push_back(toVal(e));
    }
    else if constexpr (is_pair<T>::value)
    {
        v.kids.push_back(toVal(x.first));
        v.kids.push_back(toVal(x.second));
    }
    else if constexpr (is_tuple<T>::value)
        std::apply([&](const auto&... e) { (v.kids.push_back(toVal(e)), ...); },
                   x);
    return v;
}
inline Val wrapVariant(Val inner)
{
    Val v;
    v.sig = "v";
    v.kids.push_back(std::move(inner));
    return v;
}

[[noreturn]] inline void typeErr(const std::string& want, const std::string& got)
{
    throw SdBusError(ENXIO, "sd_bus_message_read: want " + want + " got " + got);
}

template <typename T>
void fromVal(const Val& v, T& out);

template <typename V, size_t I = 0>
bool readAlt(const Val& inner, V& out)
{
    if constexpr (I == std::variant_size_v<V>)
        return false;
    else
    {
        using A = std::variant_alternative_t<I, V>;
        if (sigOf<A>() == inner.sig)
        {
            A a{};
            fromVal(inner, a);
            out = std::move(a);
            return true;
        }
        return readAlt<V, I + 1>(inner, out);
    }
}

template <typename T>
void fromVal(const Val& v, T& out)
{
    const std::string want = sigOf<T>();
    if (v.sig != want)
        typeErr(want, v.sig);
    if constexpr (std::is_same_v<T, bool> || std::is_same_v<T, double> ||
                  std::is_same_v<T, std::string>)
        out = std::get<T>(v.b);
    else if constexpr (std::is_same_v<T, float>)
        out = std::get<double>(v.b);
    else if constexpr (std::is_enum_v<T>)
        convertFromMessage(std::get<std::string>(v.b), out);
    else if constexpr (std::is_integral_v<T>)
        std::visit(
            [&](const auto& y) {
                if constexpr (std::is_arithmetic_v<
                                  std::remove_cvref_t<decltype(y)>>)
                    out = static_cast<T>(y);
            },
            v.b);
    else if constexpr (std::is_same_v<T, sdbusplus::message::object_path> ||
                       std::is_same_v<T, sdbusplus::message::signature>)
        out.str = std::get<std::string>(v.b);
    else if constexpr (is_variant<T>::value)
    {
        if (!readAlt(v.kids.at(0), out))
        {
            out = T{}; // sdbusplus skips unknown contents
        }
    }
    else if constexpr (MapLike<T>)
    {
        out.clear();
        for (const auto& e : v.kids)
        {
            typename T::key_type k{};
            typename T::mapped_type m{};
            fromVal(e.kids.at(0), k);
            fromVal(e.kids.at(1), m);
            out.emplace(std::move(k), std::move(m));
        }
    }
    else if constexpr (is_vec<T>::value)
    {
        out.clear();
        for (const auto& e : v.kids)
        {
            typename T::value_type x{};
            fromVal(e, x);
            out.insert(out.end(), std::move(x));
        }
    }
    else if constexpr (is_pair<T>::value)
    {
        fromVal(v.kids.at(0), out.first);
        fromVal(v.kids.at(1), out.second);
    }
    else if constexpr (is_tuple<T>::value)
    {
        size_t i = 0;
        std::apply([&](auto&... e) { (fromVal(v.kids.at(i++), e), ...); }, out);
    }
}

// -------------------------------------------------------------- messages ---
struct MsgImpl
{
    bool isCall = false;
    bool isError = false;
    std::string dest, sender, path, iface, member;
    std::vector<Val> args;
    size_t pos = 0;
    int connId = 0; // caller connection
};

using PropMap = std::map<std::string, Val>;          // property -> value
using IfaceMap = std::map<std::string, PropMap>;     // interface -> props
using ObjMap = std::map<std::string, IfaceMap>;      // path -> interfaces

// A property table entry exported by an object of the code under test.
struct ServerProp
{
    std::function<Val()> get;
    std::function<void(const Val&)> set; // empty: read only
};
struct ServerIface
{
    int connId;
    std::string path, iface;
    std::map<std::string, ServerProp> props;
};

struct Match
{
    uint64_t id;
    int connId;
    std::map<std::string, std::string> rule;
    std::function<void(MsgImpl*)> cb;
};

struct SetRecord
{
    int64_t timeNs;
    std::string service, path, iface, prop;
    Val value;
    bool ok;
};

struct CallInfo
{
    int connId;
    std::string dest, path, iface, member;
    const std::vector<Val>* args;
};

inline bool prefixPath(const std::string& ns, const std::string& p)
{
    return p == ns || ns == "/" ||
           (p.size() > ns.size() && p.compare(0, ns.size(), ns) == 0 &&
            p[ns.size()] == '/');
}

class Broker
{
  public:
    static Broker& get()
    {
        static Broker* b = new Broker;
        return *b;
    }

    // --- environment side (other services on the bus) ---
    std::map<std::string, ObjMap> services;
    // called before any method call is dispatched; return errno to fail it
    std::function<int(const CallInfo&)> fault;
    // an object is claimed on a connection that already holds it
    std::function<void(const char* path)> onClash;
    // an object is claimed
    std::function<void(const char* path)> onClaim;
    // observes every Properties.Set seen on the bus
    std::vector<SetRecord> sets;
    std::function<int64_t()> nowNs = [] { return int64_t{0}; };
    std::function<void(const SetRecord&)> onSet;
    // interfacesAdded/Removed + PropertiesChanged emitted by code under test
    std::function<void(const std::string& /*path*/, const std::string& /*if*/,
                       const std::string& /*prop*/, const Val&)>
        onServerSignal;
    // order of the entries in the replies of the mapper and object managers
    std::function<void(std::vector<Val>&)> reorder;
    uint64_t calls = 0;
    // called before every call and every subscription of the code under test
    std::function<void()> beforeOp;

    // --- code-under-test side ---
    std::list<Match> matches;
    std::list<ServerIface> servers;
    std::map<int, std::set<std::string>> names; // conn -> owned names
    std::vector<std::pair<int, std::string>> managers;
    int nextConn = 1;
    uint64_t nextId = 1;

    // Forget environment state between executions (server objects and matches
    // belong to C++ objects of the code under test and are left to them).
    void resetEnv()
    {
        services.clear();
        sets.clear();
        fault = nullptr;
        onClash = nullptr;
        onClaim = nullptr;
        onSet = nullptr;
        onServerSignal = nullptr;
        reorder = nullptr;
        beforeOp = nullptr;
        latch = false;
        latched.clear();
        calls = 0;
    }

    static std::map<std::string, std::string> parseRule(const std::string& r)
    {
        std::map<std::string, std::string> out;
        size_t i = 0;
        while (i < r.size())
        {
            while (i < r.size() && (r[i] == ',' || r[i] == ' '))
                ++i;
            if (i >= r.size())
                break;
            size_t eq = r.find('=', i);
            if (eq == std::string::npos)
                throw SdBusError(EINVAL, "bad match rule " + r);
            std::string k = r.substr(i, eq - i);
            size_t j = eq + 1;
            std::string v;
            if (j < r.size() && r[j] == '\'')
            {
                size_t e = r.find('\'', j + 1);
                if (e == std::string::npos)
                    throw SdBusError(EINVAL, "bad match rule " + r);
                v = r.substr(j + 1, e - j - 1);
                i = e + 1;
            }
            else
            {
                size_t e = r.find(',', j);
                if (e == std::string::npos)
                    e = r.size();
                v = r.substr(j, e - j);
                i = e;
            }
            static const std::set<std::string> known = {
                "type",   "sender",         "interface",     "member",
                "path",   "path_namespace", "destination",   "arg0",
                "arg0path", "arg0namespace", "arg1",         "arg2",
                "eavesdrop"};
            if (!known.contains(k))
                throw SdBusError(EINVAL, "bad match rule key " + k);
            out[k] = v;
        }
        return out;
    }

    static bool matchesRule(const std::map<std::string, std::string>& rule,
                            const MsgImpl& m)
    {
        for (const auto& [k, v] : rule)
        {
            std::string a0;
            bool a0str = false, a0path = false;
            if (!m.args.empty() &&
                (m.args[0].sig == "s" || m.args[0].sig == "o"))
            {
                a0 = std::get<std::string>(m.args[0].b);
                a0str = m.args[0].sig == "s";
                a0path = true;
            }
            if (k == "type")
            {
                if (v != "signal")
                    return false;
            }
            else if (k == "member")
            {
                if (m.member != v)
                    return false;
            }
            else if (k == "interface")
            {
                if (m.iface != v)
                    return false;
            }
            else if (k == "path")
            {
                if (m.path != v)
                    return false;
            }
            else if (k == "path_namespace")
            {
                if (!prefixPath(v, m.path))
                    return false;
            }
            else if (k == "sender")
            {
                if (m.sender != v)
                    return false;
            }
            else if (k == "arg0")
            {
                if (!a0str || a0 != v)
                    return false;
            }
            else if (k == "arg0namespace")
            {
                if (!a0str ||
                    !(a0 == v || (a0.size() > v.size() &&
                                  a0.compare(0, v.size(), v) == 0 &&
                                  a0[v.size()] == '.')))
                    return false;
            }
            else if (k == "arg0path")
            {
                bool ok = a0path &&
                          (a0 == v ||
                           (v.ends_with('/') && a0.starts_with(v)) ||
                           (a0.ends_with('/') && v.starts_with(a0)));
                if (!ok)
                    return false;
            }
        }
        return true;
    }

    // Deliver a signal to every matching subscription (registration order).
    // Returns the number of deliveries.
    int emitSignal(const std::string& sender, const std::string& path,
                   const std::string& iface, const std::string& member,
                   std::vector<Val> args)
    {
        MsgImpl m;
        m.sender = sender;
        m.path = path;
        m.iface = iface;
        m.member = member;
        m.args = std::move(args);
        std::vector<uint64_t> ids;
        for (auto& mt : matches)
            if (matchesRule(mt.rule, m))
                ids.push_back(mt.id);
        if (latch)
        {
            latched.emplace_back(std::move(ids), std::move(m));
            return static_cast<int>(latched.back().first.size());
        }
        return deliver(ids, m);
    }
    // While set, signals are routed when they are emitted but handed over only
    // by flushLatched(), as they are while the receiver is busy.
    bool latch = false;
    std::vector<std::pair<std::vector<uint64_t>, MsgImpl>> latched;
    void flushLatched()
    {
        auto all = std::move(latched);
        latched.clear();
        for (auto& [ids, m] : all)
            deliver(ids, m);
    }
    int deliver(const std::vector<uint64_t>& ids, const MsgImpl& m)
    {
        int n = 0;
        for (auto id : ids)
        {
            std::function<void(MsgImpl*)> cb;
            for (auto& mt : matches)
                if (mt.id == id)
                    cb = mt.cb;
            if (!cb)
                continue;
            MsgImpl copy = m;
            copy.pos = 0;
            ++n;
            try
            {
                cb(&copy);
            }
            catch (const std::exception& e)
            {
                // sdbusplus/sd-bus: an exception thrown by a match callback
                // is not caught on the way and terminates the daemon.
                if (onHandlerException)
                    onHandlerException(e.what());
                else
                    throw;
            }
        }
        return n;
    }
    std::function<void(const char*)> onHandlerException;

    // Environment changes properties of one of its objects and tells everyone.
    int propsChanged(const std::string& svc, const std::string& path,
                     const std::string& iface, const PropMap& ch,
                     bool store = true)
    {
        if (store)
            for (const auto& [k, v] : ch)
                services[svc][path][iface][k] = v;
        return emitSignal(svc, path, "org.freedesktop.DBus.Properties",
                          "PropertiesChanged",
                          {toVal(iface), propsVal(ch),
                           toVal(std::vector<std::string>{})});
    }
    static Val propsVal(const PropMap& ch)
    {
        Val d;
        d.sig = "a{sv}";
        for (const auto& [k, v] : ch)
        {
            Val e;
            e.kids.push_back(toVal(k));
            e.kids.push_back(wrapVariant(v));
            d.kids.push_back(std::move(e));
        }
        return d;
    }
    static Val ifacesVal(const IfaceMap& m)
    {
        Val d;
        d.sig = "a{sa{sv}}";
        for (const auto& [k, v] : m)
        {
            Val e;
            e.kids.push_back(toVal(k));
            e.kids.push_back(propsVal(v));
            d.kids.push_back(std::move(e));
        }
        return d;
    }
    int interfacesAdded(const std::string& svc, const std::string& mgrPath,
                        const std::string& path, const IfaceMap& ifs,
                        bool store = true)
    {
        if (store)
            for (const auto& [i, p] : ifs)
                services[svc][path][i] = p;
        return emitSignal(
            svc, mgrPath, "org.freedesktop.DBus.ObjectManager",
            "InterfacesAdded",
            {toVal(sdbusplus::object_path(path)), ifacesVal(ifs)});
    }
    int interfacesRemoved(const std::string& svc, const std::string& mgrPath,
                          const std::string& path,
                          const std::vector<std::string>& ifs,
                          bool store = true)
    {
        if (store)
        {
            for (const auto& i : ifs)
                services[svc][path].erase(i);
            if (services[svc][path].empty())
                services[svc].erase(path);
        }
        return emitSignal(svc, mgrPath, "org.freedesktop.DBus.ObjectManager",
                          "InterfacesRemoved",
                          {toVal(sdbusplus::object_path(path)), toVal(ifs)});
    }

    // --- method calls ---
    std::string uniqueName(int conn) const
    {
        return ":1." + std::to_string(conn);
    }
    ServerIface* findServer(const std::string& dest, const std::string& path,
                            const std::string& iface)
    {
        for (auto& s : servers)
            if (s.path == path && s.iface == iface &&
                (uniqueName(s.connId) == dest ||
                 (names.contains(s.connId) && names[s.connId].contains(dest))))
                return &s;
        return nullptr;
    }

    std::vector<Val> call(MsgImpl& m)
    {
        ++calls;
        if (beforeOp)
            beforeOp();
        CallInfo ci{m.connId, m.dest, m.path, m.iface, m.member, &m.args};
        int injected = fault ? fault(ci) : 0;
        std::vector<Val> out;
        try
        {
            if (injected)
                throw SdBusError(injected, "injected fault " + m.member);
            out = dispatch(m);
        }
        catch (const SdBusError&)
        {
            if (m.member == "Set" && m.args.size() == 3)
                record(m, false);
            throw;
        }
        return out;
    }

    // Nobody waits for the answer of such a call: errors of the peer are not
    // seen by the caller, only that the message could not be sent.
    void callNoReply(MsgImpl& m)
    {
        try
        {
            call(m);
        }
        catch (const SdBusError& e)
        {
            if (e.get_errno() < 0 || e.get_errno() == ENOTCONN)
                throw;
        }
    }

    // environment helper: act as a D-Bus client of the code under test
    void clientSet(const std::string& dest, const std::string& path,
                   const std::string& iface, const std::string& prop, Val v)
    {
        MsgImpl m;
        m.isCall = true;
        m.dest = dest;
        m.path = path;
        m.iface = "org.freedesktop.DBus.Properties";
        m.member = "Set";
        m.args = {toVal(iface), toVal(prop), wrapVariant(std::move(v))};
        dispatch(m);
    }
    Val clientGet(const std::string& dest, const std::string& path,
                  const std::string& iface, const std::string& prop)
    {
        MsgImpl m;
        m.isCall = true;
        m.dest = dest;
        m.path = path;
        m.iface = "org.freedesktop.DBus.Properties";
        m.member = "Get";
        m.args = {toVal(iface), toVal(prop)};
        return dispatch(m).at(0).kids.at(0);
    }
    template <typename T>
    T clientGetT(const std::string& dest, const std::string& path,
                 const std::string& iface, const std::string& prop)
    {
        T t{};
        fromVal(clientGet(dest, path, iface, prop), t);
        return t;
    }

  private:
    void record(const MsgImpl& m, bool ok)
    {
        SetRecord r{nowNs(),
                    m.dest,
                    m.path,
                    std::get<std::string>(m.args[0].b),
                    std::get<std::string>(m.args[1].b),
                    m.args[2].kids.empty() ? Val{} : m.args[2].kids[0],
                    ok};
        sets.push_back(r);
        if (onSet)
            onSet(r);
    }

    std::string argS(const MsgImpl& m, size_t i)
    {
        if (i >= m.args.size())
            throw SdBusError(EINVAL, "missing argument");
        if (m.args[i].sig != "s" && m.args[i].sig != "o")
            throw SdBusError(EINVAL, "bad argument type");
        return std::get<std::string>(m.args[i].b);
    }

    std::vector<Val> dispatch(MsgImpl& m)
    {
        static const std::string props = "org.freedesktop.DBus.Properties";
        if (m.dest == "xyz.openbmc_project.ObjectMapper")
            return mapper(m);
        if (m.iface == "org.freedesktop.DBus.ObjectManager" &&
            m.member == "GetManagedObjects")
            return managed(m);
        if (m.iface == props)
        {
            std::string iface = argS(m, 0);
            ServerIface* s = findServer(m.dest, m.path, iface);
            auto sv = services.find(m.dest);
            PropMap* env = nullptr;
            bool objKnown = false;
            if (sv != services.end())
            {
                auto o = sv->second.find(m.path);
                if (o != sv->second.end())
                {
                    objKnown = true;
                    auto i = o->second.find(iface);
                    if (i != o->second.end())
                        env = &i->second;
                }
            }
            else if (!s)
            {
                bool owned = false;
                for (auto& [c, ns] : names)
                    owned |= ns.contains(m.dest);
                if (!owned)
                    throw SdBusError(EHOSTUNREACH, "no such service " + m.dest);
            }
            if (!s && !env && !objKnown)
                throw SdBusError(EBADR, "Unknown object " + m.path);
            if (m.member == "GetAll")
            {
                if (s)
                {
                    PropMap pm;
                    for (auto& [n, p] : s->props)
                        pm[n] = p.get();
                    return {propsVal(pm)};
                }
                if (!env)
                    throw SdBusError(EBADR, "Unknown interface " + iface);
                return {propsVal(*env)};
            }
            std::string prop = argS(m, 1);
            if (m.member == "Get")
            {
                if (s)
                {
                    auto p = s->props.find(prop);
                    if (p == s->props.end())
                        throw SdBusError(EBADR, "Unknown property " + prop);
                    return {wrapVariant(p->second.get())};
                }
                if (!env || !env->contains(prop))
                    throw SdBusError(EBADR, "Unknown property " + prop);
                return {wrapVariant(env->at(prop))};
            }
            if (m.member == "Set")
            {
                if (m.args.size() != 3 || m.args[2].sig != "v")
                    throw SdBusError(EINVAL, "Set needs a variant");
                const Val& nv = m.args[2].kids.at(0);
                if (s)
                {
                    auto p = s->props.find(prop);
                    if (p == s->props.end())
                        throw SdBusError(EBADR, "Unknown property " + prop);
                    if (!p->second.set)
                        throw SdBusError(EROFS, "Property read only " + prop);
                    if (p->second.get().sig != nv.sig)
                        throw SdBusError(EINVAL, "Property type " + prop);
                    auto setter = p->second.set;
                    setter(nv);
                }
                else
                {
                    if (!env || !env->contains(prop))
                        throw SdBusError(EBADR, "Unknown property " + prop);
                    if (env->at(prop).sig != nv.sig)
                        throw SdBusError(EINVAL, "Property type " + prop);
                    (*env)[prop] = nv;
                }
                record(m, true);
                return {};
            }
        }
        throw SdBusError(EBADR, "Unknown method " + m.iface + "." + m.member);
    }

    std::vector<Val> managed(MsgImpl& m)
    {
        auto sv = services.find(m.dest);
        if (sv == services.end())
            throw SdBusError(EHOSTUNREACH, "no such service " + m.dest);
        auto mo = sv->second.find(m.path);
        if (mo == sv->second.end() ||
            !mo->second.contains("org.freedesktop.DBus.ObjectManager"))
            throw SdBusError(EBADR, "no object manager at " + m.path);
        Val d;
        d.sig = "a{oa{sa{sv}}}";
        for (const auto& [p, ifs] : sv->second)
        {
            if (p == m.path || !prefixPath(m.path, p))
                continue;
            Val e;
            e.kids.push_back(toVal(sdbusplus::object_path(p)));
            e.kids.push_back(ifacesVal(ifs));
            d.kids.push_back(std::move(e));
        }
        if (reorder)
            reorder(d.kids);
        return {d};
    }

    std::vector<Val> mapper(MsgImpl& m)
    {
        if (m.member == "GetObject")
        {
            std::string path = argS(m, 0);
            std::vector<std::string> want;
            for (const auto& k : m.args.at(1).kids)
                want.push_back(std::get<std::string>(k.b));
            std::map<std::string, std::vector<std::string>> out;
            for (const auto& [svc, objs] : services)
            {
                auto o = objs.find(path);
                if (o == objs.end())
                    continue;
                std::vector<std::string> all;
                bool hit = want.empty();
                for (const auto& [i, p] : o->second)
                {
                    all.push_back(i);
                    hit |= std::find(want.begin(), want.end(), i) != want.end();
                }
                if (hit)
                    out[svc] = all;
            }
            if (out.empty())
                throw SdBusError(EBADR, "mapper: path not found " + path);
            return {toVal(out)};
        }
        if (m.member == "GetSubTree" || m.member == "GetSubTreePaths")
        {
            std::string root = argS(m, 0);
            if (m.args.size() < 3 || m.args[1].sig != "i")
                throw SdBusError(EINVAL, "mapper arguments");
            std::vector<std::string> want;
            for (const auto& k : m.args[2].kids)
                want.push_back(std::get<std::string>(k.b));
            std::map<std::string,
                     std::map<std::string, std::vector<std::string>>>
                out;
            for (const auto& [svc, objs] : services)
                for (const auto& [p, ifs] : objs)
                {
                    if (!prefixPath(root, p) && root != "/")
                        continue;
                    std::vector<std::string> got;
                    for (const auto& [i, pm] : ifs)
                        if (want.empty() ||
                            std::find(want.begin(), want.end(), i) !=
                                want.end())
                            got.push_back(i);
                    if (!got.empty())
                        out[p][svc] = got;
                }
            if (m.member == "GetSubTree")
            {
                Val r = toVal(out);
                if (reorder)
                    reorder(r.kids);
                return {r};
            }
            std::vector<std::string> paths;
            for (auto& [p, x] : out)
                paths.push_back(p);
            return {toVal(paths)};
        }
        throw SdBusError(EBADR, "mapper: unknown method " + m.member);
    }
};
} // namespace simbus

// ------------------------------------------------------------- sdbusplus ---
namespace sdbusplus
{
using SdBusDuration = std::chrono::microseconds;

namespace message
{
class message
{
  public:
    message() = default;
    explicit message(std::shared_ptr<simbus::MsgImpl> p) : m(std::move(p)) {}
    explicit message(sd_bus_message* raw) :
        m(std::make_shared<simbus::MsgImpl>(
            *reinterpret_cast<simbus::MsgImpl*>(raw)))
    {}
    message(sd_bus_message* raw, std::false_type) : message(raw) {}
    message(const message&) = default;
    message(message&&) = default;
    message& operator=(const message&) = default;
    message& operator=(message&&) = default;

    template <typename... A>
    void append(A&&... a)
    {
        (m->args.push_back(simbus::toVal(a)), ...);
    }
    template <typename... A>
    void read(A&&... a)
    {
        (readOne(a), ...);
    }
    template <typename... A>
    auto unpack()
    {
        if constexpr (sizeof...(A) == 0)
            return;
        else if constexpr (sizeof...(A) == 1)
        {
            std::tuple<std::remove_cvref_t<A>...> t;
            readOne(std::get<0>(t));
            return std::get<0>(std::move(t));
        }
        else
        {
            std::tuple<std::remove_cvref_t<A>...> t;
            std::apply([this](auto&... x) { (readOne(x), ...); }, t);
            return t;
        }
    }
    const char* get_member() const
    {
        return m->member.c_str();
    }
    const char* get_path() const
    {
        return m->path.c_str();
    }
    const char* get_interface() const
    {
        return m->iface.c_str();
    }
    const char* get_sender() const
    {
        return m->sender.c_str();
    }
    const char* get_destination() const
    {
        return m->dest.c_str();
    }
    const char* get_signature() const
    {
        std::string s;
        for (auto& a : m->args)
            s += a.sig;
        sigCache = s;
        return sigCache.c_str();
    }
    bool is_method_error() const
    {
        return m->isError;
    }
    bool is_method_call(const char* i, const char* mem) const
    {
        return m->isCall && m->iface == i && m->member == mem;
    }
    bool is_signal(const char* i, const char* mem) const
    {
        return !m->isCall && m->iface == i && m->member == mem;
    }
    int get_errno() const
    {
        return m && m->isError ? EIO : 0;
    }
    bool at_end(bool = true) const
    {
        return m->pos >= m->args.size();
    }
    uint64_t get_cookie() const
    {
        return 1;
    }
    void rewind(bool = true)
    {
        m->pos = 0;
    }
    void skip(const char*)
    {
        ++m->pos;
    }
    message call(std::optional<SdBusDuration> = std::nullopt);
    void call_noreply(std::optional<SdBusDuration> = std::nullopt);
    explicit operator bool() const
    {
        return static_cast<bool>(m);
    }
    simbus::MsgImpl& impl()
    {
        return *m;
    }

  private:
    template <typename T>
    void readOne(T& t)
    {
        if (m->pos >= m->args.size())
            throw exception::SdBusError(ENXIO, "end of message");
        const simbus::Val& v = m->args[m->pos];
        simbus::fromVal(v, t);
        ++m->pos;
    }
    std::shared_ptr<simbus::MsgImpl> m;
    mutable std::string sigCache;
};
} // namespace message
using message_t = message::message;

namespace bus
{
class bus
{
  public:
    bus() : id(simbus::Broker::get().nextConn++) {}
    bus(const bus&) = delete;
    bus& operator=(const bus&) = delete;
    bus(bus&& o) noexcept : id(o.id)
    {
        o.id = 0;
    }
    bus& operator=(bus&& o) noexcept
    {
        id = o.id;
        o.id = 0;
        return *this;
    }
    virtual ~bus() = default;

    auto new_method_call(const char* service, const char* objpath,
                         const char* interf, const char* method)
    {
        // sd-bus validates the object path
        if (!objpath || objpath[0] != '/')
            throw exception::SdBusError(EINVAL,
                                        "sd_bus_message_new_method_call");
        auto p = std::make_shared<simbus::MsgImpl>();
        p->isCall = true;
        p->connId = id;
        p->dest = service ? service : "";
        p->path = objpath;
        p->iface = interf ? interf : "";
        p->member = method;
        return message_t(p);
    }
    auto new_signal(const char* objpath, const char* interf, const char* member)
    {
        auto p = std::make_shared<simbus::MsgImpl>();
        p->connId = id;
        p->path = objpath;
        p->iface = interf;
        p->member = member;
        return message_t(p);
    }
    auto call(message_t& msg,
              std::optional<SdBusDuration> = std::nullopt)
    {
        auto r = std::make_shared<simbus::MsgImpl>();
        r->args = simbus::Broker::get().call(msg.impl());
        r->sender = msg.impl().dest;
        return message_t(r);
    }
    auto call(message_t& msg, uint64_t)
    {
        return call(msg);
    }
    void call_noreply(message_t& msg,
                      std::optional<SdBusDuration> = std::nullopt)
    {
        simbus::Broker::get().callNoReply(msg.impl());
    }
    void call_noreply_noerror(message_t& msg,
                              std::optional<SdBusDuration> = std::nullopt)
    {
        try
        {
            call(msg);
        }
        catch (const exception::SdBusError&)
        {}
    }
    void request_name(const char* n)
    {
        simbus::Broker::get().names[id].insert(n);
    }
    std::string get_unique_name()
    {
        return simbus::Broker::get().uniqueName(id);
    }
    bool process_discard()
    {
        return false;
    }
    void flush() {}
    void close() {}
    void emit_object_added(const char*) {}
    void emit_object_removed(const char*) {}
    int connId() const
    {
        return id;
    }

  protected:
    int id;
};
inline bus new_default()
{
    return bus();
}
inline bus new_bus()
{
    return bus();
}
inline bus new_system()
{
    return bus();
}
inline bus new_user()
{
    return bus();
}
inline bus new_default_user()
{
    return bus();
}
inline bus new_default_system()
{
    return bus();
}

namespace match
{
class match
{
  public:
    using callback_t = std::function<void(sdbusplus::message_t&)>;
    match() = delete;
    match(const match&) = delete;
    match& operator=(const match&) = delete;
    match(match&& o) noexcept : id(o.id)
    {
        o.id = 0;
    }
    match& operator=(match&& o) noexcept
    {
        std::swap(id, o.id);
        return *this;
    }
    match(sdbusplus::bus::bus& b, const char* rule,
          sd_bus_message_handler_t handler, void* ctx = nullptr)
    {
        reg(b, rule, [handler, ctx](simbus::MsgImpl* m) {
            handler(reinterpret_cast<sd_bus_message*>(m), ctx, nullptr);
        });
    }
    match(sdbusplus::bus::bus& b, const std::string& rule,
          sd_bus_message_handler_t handler, void* ctx = nullptr) :
        match(b, rule.c_str(), handler, ctx)
    {}
    match(sdbusplus::bus::bus& b, const char* rule, callback_t cb)
    {
        reg(b, rule, [cb](simbus::MsgImpl* m) {
            sdbusplus::message_t msg(reinterpret_cast<sd_bus_message*>(m));
            cb(msg);
        });
    }
    match(sdbusplus::bus::bus& b, const std::string& rule, callback_t cb) :
        match(b, rule.c_str(), std::move(cb))
    {}
    ~match()
    {
        if (id)
            std::erase_if(simbus::Broker::get().matches,
                          [this](const simbus::Match& m) { return m.id == id; });
    }

  private:
    void reg(sdbusplus::bus::bus& b, const char* rule,
             std::function<void(simbus::MsgImpl*)> cb)
    {
        auto& br = simbus::Broker::get();
        if (br.beforeOp)
            br.beforeOp();
        id = br.nextId++;
        br.matches.push_back(simbus::Match{
            id, b.connId(), simbus::Broker::parseRule(rule), std::move(cb)});
    }
    uint64_t id = 0;
};
using match_t = match;

namespace rules
{
namespace type
{
inline std::string signal()
{
    return "type='signal',";
}
inline std::string method()
{
    return "type='method',";
}
} // namespace type
inline std::string kv(const char* k, std::string_view v)
{
    return std::string(k) + "='" + std::string(v) + "',";
}
inline std::string path(std::string_view p)
{
    return kv("path", p);
}
inline std::string path_namespace(std::string_view p)
{
    return kv("path_namespace", p);
}
inline std::string member(std::string_view p)
{
    return kv("member", p);
}
inline std::string interface(std::string_view p)
{
    return kv("interface", p);
}
inline std::string sender(std::string_view p)
{
    return kv("sender", p);
}
inline std::string argN(size_t n, std::string_view s)
{
    return kv(("arg" + std::to_string(n)).c_str(), s);
}
inline std::string arg0namespace(std::string_view s)
{
    return kv("arg0namespace", s);
}
inline std::string argNpath(size_t n, std::string_view s)
{
    return kv(("arg" + std::to_string(n) + "path").c_str(), s);
}
inline std::string propertiesChanged(std::string_view p, std::string_view i)
{
    return type::signal() + path(p) + member("PropertiesChanged") +
           argN(0, i) + interface("org.freedesktop.DBus.Properties");
}
inline std::string propertiesChangedNamespace(std::string_view p,
                                              std::string_view i)
{
    return type::signal() + path(p) + member("PropertiesChanged") +
           arg0namespace(i) + interface("org.freedesktop.DBus.Properties");
}
inline std::string interfacesAdded()
{
    return type::signal() + interface("org.freedesktop.DBus.ObjectManager") +
           member("InterfacesAdded");
}
inline std::string interfacesAdded(std::string_view p)
{
    return interfacesAdded() + path(p);
}
inline std::string interfacesAddedAtPath(std::string_view p)
{
    return interfacesAdded() + path(p);
}
inline std::string interfacesRemoved()
{
    return type::signal() + interface("org.freedesktop.DBus.ObjectManager") +
           member("InterfacesRemoved");
}
inline std::string interfacesRemoved(std::string_view p)
{
    return interfacesRemoved() + path(p);
}
inline std::string interfacesRemovedAtPath(std::string_view p)
{
    return interfacesRemoved() + path(p);
}
} // namespace rules
} // namespace match
} // namespace bus
using bus_t = bus::bus;
using match = bus::match::match;
using match_t = bus::match::match;
namespace match_rules = bus::match::rules;

inline void message::message::call_noreply(std::optional<SdBusDuration>)
{
    simbus::Broker::get().callNoReply(*m);
}
inline message_t message::message::call(std::optional<SdBusDuration>)
{
    auto r = std::make_shared<simbus::MsgImpl>();
    r->args = simbus::Broker::get().call(*m);
    r->sender = m->dest;
    return message_t(r);
}

namespace server
{
namespace manager
{
class manager
{
  public:
    manager(bus_t& b, const char* path)
    {
        simbus::Broker::get().managers.emplace_back(b.connId(), path);
    }
    manager(const manager&) = delete;
    manager(manager&&) = default;
};
} // namespace manager
using manager_t = manager::manager;

namespace object
{
template <class... Args>
class object : public Args...
{
  public:
    enum class action
    {
        emit_object_added,
        defer_emit,
        emit_interface_added,
        emit_no_signals,
    };
    object() = delete;
    object(const object&) = delete;
    object& operator=(const object&) = delete;
    object(object&&) = delete;
    object& operator=(object&&) = delete;
    object(bus_t& b, const char* path, action = action::emit_object_added) :
        Args(b, path)...
    {}
    virtual ~object() = default;
    void emit_object_added()
    {
        emitted = true;
    }

  private:
    bool emitted = false;
};
} // namespace object
template <class... Args>
using object_t = object::object<Args...>;
} // namespace server

// Base of the simulated generated server bindings.
namespace simserver
{
class Iface
{
  public:
    Iface(bus_t& b, const char* path, const char* iface) : connId(b.connId())
    {
        auto& br = simbus::Broker::get();
        if (!path || path[0] != '/' ||
            (path[1] && path[std::strlen(path) - 1] == '/'))
        {
            throw exception::SdBusError(EINVAL, "sd_bus_add_object_vtable");
        }
        for (const char* c = path; *c; ++c)
            if (!(std::isalnum(static_cast<unsigned char>(*c)) || *c == '_' ||
                  *c == '/'))
                throw exception::SdBusError(EINVAL, "sd_bus_add_object_vtable");
        for (auto& s : br.servers)
            if (s.connId == connId && s.path == path && s.iface == iface)
            {
                if (br.onClash)
                    br.onClash(path);
                throw exception::SdBusError(EEXIST, "sd_bus_add_object_vtable");
            }
        if (br.onClaim)
            br.onClaim(path);
        br.servers.push_back(simbus::ServerIface{connId, path, iface, {}});
        it = std::prev(br.servers.end());
    }
    Iface(const Iface&) = delete;
    virtual ~Iface()
    {
        simbus::Broker::get().servers.erase(it);
    }

  protected:
    template <typename T>
    void prop(const char* name, std::function<T()> g,
              std::function<void(T)> s = nullptr)
    {
        simbus::ServerProp p;
        p.get = [g] { return simbus::toVal(g()); };
        if (s)
            p.set = [s](const simbus::Val& v) {
                T t{};
                simbus::fromVal(v, t);
                s(t);
            };
        it->props[name] = std::move(p);
    }
    template <typename T>
    T update(T& slot, T v, const char* name, bool skip)
    {
        if (slot != v)
        {
            slot = v;
            auto& br = simbus::Broker::get();
            if (!skip && br.onServerSignal)
                br.onServerSignal(it->path, it->iface, name, simbus::toVal(v));
        }
        return slot;
    }

  private:
    int connId;
    std::list<simbus::ServerIface>::iterator it;
};
} // namespace simserver
} // namespace sdbusplus
