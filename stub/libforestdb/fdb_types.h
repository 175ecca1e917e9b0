// Declaration-only stand-in for ForestDB's public types (ForestDB itself is not in this sandbox).
// Used only so that the parts of /repo that include it can be compiled to LLVM IR and replayed;
// nothing about ForestDB's behaviour is assumed from it.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
typedef uint64_t fdb_seqnum_t;
typedef int (*fdb_custom_cmp_variable)(void*, size_t, void*, size_t, void*);
typedef int fdb_status;
enum { FDB_RESULT_SUCCESS = 0, FDB_RESULT_KEY_NOT_FOUND = -9, FDB_RESULT_CHECKSUM_ERROR = -18, FDB_RESULT_FILE_CORRUPTION = -19 };
struct _fdb_file_handle; struct _fdb_kvs_handle; struct _fdb_iterator;
typedef struct _fdb_file_handle fdb_file_handle;
typedef struct _fdb_kvs_handle fdb_kvs_handle;
typedef struct _fdb_iterator fdb_iterator;
