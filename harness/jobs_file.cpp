// Histories of a stream shared by scans and by the program's own reads
#include "file_ops.h"

namespace {
std::string history(std::FILE* f, const std::string& ops)
{
    std::string o = "[";
    std::stringstream ss(ops);
    for (std::string op; std::getline(ss, op, ';');)
        o += (o.size() > 1 ? "," : "") + op_json(op) + perform(f, op) + "}";
    o += std::string(o.size() > 1 ? "," : "") + "{\"o\":\"z\",\"a\":0,\"e\":0,\"v\":" + esc(drv::drain(f)) + "}";
    return o + "]";
}

drv::adder a("hist", [](const drv::item& it, drv::outcomes& out) {
    const auto in = drv::text<char>(it.input);
    auto one = [&](const char* name, std::FILE* f) {
        drv::mark(name);
        drv::outcome o;
        o.src = name;
        o.v = history(f, it.extra);
        out.push_back(o);
        std::fclose(f);
    };
    one("disk", drv::open_disk(in, -1));
    one("none", drv::open_disk(in, 0));
    one("b1", drv::open_disk(in, 1));
    one("b2", drv::open_disk(in, 2));
    one("b3", drv::open_disk(in, 3));
    one("b7", drv::open_disk(in, 7));
    one("mem", drv::open_mem(in, -1));
    one("pipe", drv::open_pipe(in, -1));
    one("pipe4", drv::open_pipe(in, 4));
});
}
