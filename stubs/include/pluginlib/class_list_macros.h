#pragma once
#include "pluginlib/class_loader.hpp"
#define PLUGINLIB_EXPORT_CLASS(A, B) namespace { void * plugin_stub_##__LINE__ __attribute__((unused)) = static_cast<B *>(static_cast<A *>(nullptr)); }
