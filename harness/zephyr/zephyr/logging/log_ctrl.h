#pragma once
extern "C" {
struct log_backend;
const struct log_backend* log_backend_get_by_name(const char* name);
uint32_t log_filter_set(struct log_backend const* const backend, uint32_t domain_id, int16_t source_id, uint32_t level);
int log_source_id_get(const char* name);
}
#define LOG_CURRENT_MODULE_ID() 0
#define Z_LOG_LOCAL_DOMAIN_ID 0
