#include "daisy_rtl/arg_capture_io.h"
template std::shared_ptr<arg_capture::ArgCaptureIO> arg_capture::ArgCaptureIO::from_index<arg_capture::ArgCaptureIO>(
    const std::filesystem::path&);
