/* the SQLite driver is linked into the harness; loading the module returns it (optionally with interposed callbacks) */
#pragma once
#include "vh.hpp"
#include <mstdlib/mstdlib_sql.h>
#include <mstdlib/sql/m_sql_driver.h>
#include <sqlite3.h>
extern "C" {
M_sql_driver_t *M_sql_get_driver_sqlite(void);
static M_sql_driver_t sq_driver; static void (*sq_hook)(M_sql_driver_t *) = NULL;
static M_sql_driver_t *sq_get(void) { static bool done = false; if (!done) { sq_driver = *M_sql_get_driver_sqlite(); if (sq_hook) sq_hook(&sq_driver); done = true; } return &sq_driver; }
static int sq_dummy;
void *__wrap_M_module_load(const char *name, char *error, size_t n) { (void)error; (void)n; return strstr(name, "sqlite") ? (void *)&sq_dummy : NULL; }
void *__wrap_M_module_symbol(void *h, const char *sym) { (void)h; return strstr(sym, "get_driver_sqlite") ? (void *)sq_get : NULL; }
void __wrap_M_module_unload(void *h) { (void)h; }
}
