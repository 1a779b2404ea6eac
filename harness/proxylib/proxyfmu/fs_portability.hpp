// Part of a stand-in for the proxyfmu client library; see proxyfmu/fmi/fmu.hpp.
#ifndef PROXYFMU_FS_PORTABILITY_HPP
#define PROXYFMU_FS_PORTABILITY_HPP
#include <filesystem>
namespace proxyfmu
{
namespace filesystem = std::filesystem;
}
#endif
