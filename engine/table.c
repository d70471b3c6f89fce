#include "mc.h"
extern const Harness h_map, h_list, h_sq, h_pool, h_buf, h_cmp, h_churn;
const Harness *harnesses[] = { &h_map, &h_list, &h_sq, &h_pool, &h_buf, &h_cmp, &h_churn, NULL };
