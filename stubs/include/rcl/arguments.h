#pragma once
#define RCL_ROS_ARGS_FLAG "--ros-args"
#define RCL_PARAM_FLAG "--param"
#define RCL_PARAM_FILE_FLAG "--params-file"
#define RCL_REMAP_FLAG "--remap"
#define RCL_SHORT_REMAP_FLAG "-r"
#define RCL_SHORT_PARAM_FLAG "-p"
