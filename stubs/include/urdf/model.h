#pragma once
#include <string>
#include "urdf_model/model.h"
#include "urdf_parser/urdf_parser.h"
namespace urdf
{
class Model : public ModelInterface
{
public:
  bool initString(const std::string & s)
  {
    auto m = urdf::parseURDF(s);
    if (!m) return false;
    this->links_ = m->links_; this->joints_ = m->joints_; this->materials_ = m->materials_;
    this->name_ = m->name_; this->root_link_ = m->root_link_;
    return true;
  }
};
}  // namespace urdf
