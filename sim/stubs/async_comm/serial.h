#pragma once
#include <string>
#include "async_comm/comm.h"
namespace async_comm {
class Serial : public Comm
{
 public:
    Serial(std::string port, unsigned int baud) : port_(port), baud_(baud) {}
    std::string port_;
    unsigned int baud_;
};
}  // namespace async_comm
