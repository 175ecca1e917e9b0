// A memory table / log file outside a database: only the parts of LogMgr that they use are set up.
#pragma once
#include "common.h"
#include "memtable.h"
#include "log_file.h"
#include "log_mgr.h"
#include "db_mgr.h"
#include "skiplist.h"
#include "internal_helper.h"
#include <libjungle/jungle.h>
namespace mt {
using namespace jungle;
struct Env {
    DBConfig cfg; LogMgr* lm; LogFile* lf;
    Env() { cfg.maxEntriesInLogFile = 64; lm = (LogMgr*)calloc(1, sizeof(LogMgr)); lm->opt.dbConfig = &cfg; lf = new LogFile(lm); lf->mTable = new MemTable(lf); }
    ~Env() { delete lf; free(lm); }
    MemTable* t() { return lf->mTable; }
};
}
