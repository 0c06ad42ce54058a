#include <valijson/utils/file_utils.hpp>
#include "io.hpp"
namespace sim { namespace { struct L : Loader {
    const char *name() const override { return "file"; } bool raw() const override { return true; }
    void *make() const override { return new std::string("old content"); } void destroy(void *p) const override { delete static_cast<std::string *>(p); }
    bool load(void *d, const std::string &p) const override { return valijson::utils::loadFile(p, *static_cast<std::string *>(d)); }
    J get(const void *) const override { return J(); } std::string rawGet(const void *d) const override { return *static_cast<const std::string *>(d); }
} inst; } const Loader *io_file() { return &inst; } }
