#pragma once
#include <string>
class SHA1 {
public:
  std::string operator()(const std::string& s);
};
