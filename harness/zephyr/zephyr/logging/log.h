#pragma once
#include <cstdarg>
#include <zephyr/kernel.h>

#define LOG_LEVEL_NONE 0U
#define LOG_LEVEL_ERR 1U
#define LOG_LEVEL_WRN 2U
#define LOG_LEVEL_INF 3U
#define LOG_LEVEL_DBG 4U
// a module's own level is fixed when it is compiled: the kernel drops what lies above it
#define VF_LOG_SECOND(name, level, ...) level
#define VF_LOG_MODULE_LEVEL(...) VF_LOG_SECOND(__VA_ARGS__, LOG_LEVEL_INF, 0)
#define LOG_MODULE_REGISTER(...) [[maybe_unused]] static constexpr unsigned vf_log_module_level = VF_LOG_MODULE_LEVEL(__VA_ARGS__)
#define LOG_MODULE_DECLARE(...) [[maybe_unused]] static constexpr unsigned vf_log_declared_level = VF_LOG_MODULE_LEVEL(__VA_ARGS__)

extern "C" void vf_zephyr_log(unsigned level, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define LOG_ERR(...) (LOG_LEVEL_ERR <= vf_log_module_level ? vf_zephyr_log(LOG_LEVEL_ERR, __VA_ARGS__) : (void)0)
#define LOG_WRN(...) (LOG_LEVEL_WRN <= vf_log_module_level ? vf_zephyr_log(LOG_LEVEL_WRN, __VA_ARGS__) : (void)0)
#define LOG_INF(...) (LOG_LEVEL_INF <= vf_log_module_level ? vf_zephyr_log(LOG_LEVEL_INF, __VA_ARGS__) : (void)0)
#define LOG_DBG(...) (LOG_LEVEL_DBG <= vf_log_module_level ? vf_zephyr_log(LOG_LEVEL_DBG, __VA_ARGS__) : (void)0)
