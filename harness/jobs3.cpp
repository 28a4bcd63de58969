// More arguments than fit the 64-bit bookkeeping of the library
#include "common.h"
namespace {
template <size_t>
using int_t = int;
template <size_t... I>
void go(const drv::item& it, drv::outcomes& out, std::index_sequence<I...>)
{
    const auto in = drv::text<char>(it.input);
    const auto fmt = drv::text<char>(it.fmt);
    auto f = [&](auto& src) { return scn::scan<int_t<I>...>(src, scn::runtime_format(fmt)); };
    drv::contiguous_sources<char>(in, f, out);
    drv::range_sources<char>(in, f, out);
}
template <size_t N>
void add()
{
    drv::registry()["many" + std::to_string(N)] = [](const drv::item& it, drv::outcomes& out) {
        go(it, out, std::make_index_sequence<N>{});
    };
}
struct init {
    init() { add<63>(), add<64>(), add<65>(), add<70>(); }
} init_;
}
