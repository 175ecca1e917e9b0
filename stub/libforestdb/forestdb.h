#pragma once
#include "fdb_types.h"
typedef uint8_t fdb_commit_opt_t; enum { FDB_COMMIT_NORMAL = 0, FDB_COMMIT_MANUAL_WAL_FLUSH = 1 };
typedef uint8_t fdb_seqtree_opt_t; enum { FDB_SEQTREE_NOT_USE = 0, FDB_SEQTREE_USE = 1 };
typedef uint8_t fdb_durability_opt_t; enum { FDB_DRB_NONE = 0, FDB_DRB_ODIRECT = 1, FDB_DRB_ASYNC = 2 };
typedef uint16_t fdb_iterator_opt_t; enum { FDB_ITR_NONE = 0, FDB_ITR_NO_DELETES = 2 };
typedef enum { FDB_ITR_SEEK_HIGHER = 0, FDB_ITR_SEEK_LOWER = 1 } fdb_iterator_seek_opt_t;
typedef uint8_t fdb_iterator_seek_opt_u;
typedef enum { FDB_GET_GREATER = 0, FDB_GET_GREATER_OR_EQUAL = 1, FDB_GET_SMALLER = 2, FDB_GET_SMALLER_OR_EQUAL = 3 } fdb_get_nearest_opt_t;
typedef int fdb_compact_decision; enum { FDB_CS_KEEP_DOC = 0, FDB_CS_DROP_DOC = 1, FDB_CS_MOVE_DOC = 2 };
typedef int fdb_index_traversal_decision; enum { FDB_IT_NEXT = 0, FDB_IT_STOP = 1 };
typedef int fdb_compaction_status;
typedef uint64_t fdb_snapshot_marker_t;
enum { FDB_CUSTOM_SEQNUM = 1 };
typedef struct fdb_doc_struct {
    size_t keylen, metalen, bodylen, size_ondisk;
    void *key, *meta, *body;
    fdb_seqnum_t seqnum; uint64_t offset; bool deleted; uint32_t flags;
} fdb_doc;
typedef fdb_compact_decision (*fdb_compaction_callback)(fdb_file_handle*, fdb_compaction_status, const char*, fdb_doc*, uint64_t, uint64_t, void*);
typedef fdb_index_traversal_decision (*fdb_index_traversal_callback)(fdb_kvs_handle*, void*, size_t, uint64_t, void*);
typedef void (*fdb_log_callback)(int, const char*, void*);
typedef void (*fdb_log_callback_ex)(int, int, const char*, const char*, size_t, const char*, void*);
typedef struct {
    uint16_t chunksize; uint32_t blocksize; uint64_t buffercache_size; uint64_t wal_threshold; bool wal_flush_before_commit;
    bool auto_commit; uint32_t purging_interval; fdb_seqtree_opt_t seqtree_opt; fdb_durability_opt_t durability_opt; uint32_t flags;
    uint32_t compaction_buf_maxsize; bool cleanup_cache_onclose; bool compress_document_body; uint8_t compaction_mode; uint8_t compaction_threshold;
    uint64_t compaction_minimum_filesize; uint64_t compactor_sleep_duration; bool multi_kv_instances; uint64_t prefetch_duration;
    uint16_t num_wal_partitions; uint16_t num_bcache_partitions; fdb_compaction_callback compaction_cb; uint32_t compaction_cb_mask; void* compaction_cb_ctx;
    size_t max_writer_lock_prob; size_t num_compactor_threads; size_t num_bgflusher_threads; void* encryption_key; size_t block_reusing_threshold;
    size_t num_keeping_headers; bool bottom_up_index_build; uint64_t bottom_up_index_build_size; bool enable_reading_cmp_meta; bool do_not_search_wal; uint64_t min_block_reuse_filesize;
    bool custom_file_flags; uint32_t buffercache_aligned_size; bool cb_skip; fdb_log_callback log_callback; void* log_callback_ctx; bool log_msg_level;
    bool stale_block_cleanup; bool multi_writers; bool do_not_move_to_compacted_file; bool do_not_cache_doc_blocks; size_t num_blocks_readahead;
    bool allow_partial_write; bool use_full_direct_io; bool bulk_load_mode; size_t max_block_reusing_cycle; bool enable_background_compactor;
} fdb_config;
typedef struct { bool create_if_missing; fdb_custom_cmp_variable custom_cmp; void* custom_cmp_param; } fdb_kvs_config;
typedef struct { const char* filename; const char* new_filename; uint64_t doc_count; uint64_t deleted_count; uint64_t space_used; uint64_t file_size; size_t num_kv_stores; size_t nlevel; uint64_t sb_bmp_revnum; uint64_t num_live_nodes; } fdb_file_info;
typedef struct { const char* name; fdb_seqnum_t last_seqnum; uint64_t doc_count; uint64_t deleted_count; uint64_t space_used; fdb_file_handle* file; } fdb_kvs_info;
typedef struct { const char* kv_store_name; fdb_seqnum_t seqnum; } fdb_kvs_commit_marker_t;
typedef struct { fdb_snapshot_marker_t marker; int64_t num_kvs_markers; fdb_kvs_commit_marker_t* kvs_markers; } fdb_snapshot_info_t;
typedef struct { void* dummy; } fdb_filemgr_ops_t;
#ifdef __cplusplus
extern "C" {
#endif
fdb_status fdb_open(fdb_file_handle**, const char*, fdb_config*);
fdb_status fdb_open_custom_cmp(fdb_file_handle**, const char*, fdb_config*, size_t, char**, fdb_custom_cmp_variable*, void**);
fdb_status fdb_close(fdb_file_handle*);
fdb_status fdb_kvs_open(fdb_file_handle*, fdb_kvs_handle**, const char*, fdb_kvs_config*);
fdb_status fdb_kvs_close(fdb_kvs_handle*);
fdb_status fdb_set(fdb_kvs_handle*, fdb_doc*);
fdb_status fdb_del(fdb_kvs_handle*, fdb_doc*);
fdb_status fdb_get(fdb_kvs_handle*, fdb_doc*);
fdb_status fdb_get_metaonly(fdb_kvs_handle*, fdb_doc*);
fdb_status fdb_get_byoffset(fdb_kvs_handle*, fdb_doc*);
fdb_status fdb_get_byoffset_raw(fdb_kvs_handle*, fdb_doc*);
fdb_status fdb_get_nearest(fdb_kvs_handle*, const void*, size_t, fdb_doc*, fdb_get_nearest_opt_t);
fdb_status fdb_doc_free(fdb_doc*);
fdb_status fdb_commit(fdb_file_handle*, fdb_commit_opt_t);
fdb_status fdb_sync_file(fdb_file_handle*);
fdb_status fdb_snapshot_open(fdb_kvs_handle*, fdb_kvs_handle**, fdb_seqnum_t);
fdb_status fdb_get_kvs_seqnum(fdb_kvs_handle*, fdb_seqnum_t*);
fdb_status fdb_get_kvs_info(fdb_kvs_handle*, fdb_kvs_info*);
fdb_status fdb_get_file_info(fdb_file_handle*, fdb_file_info*);
fdb_status fdb_get_all_snap_markers(fdb_file_handle*, fdb_snapshot_info_t**, uint64_t*);
fdb_status fdb_free_snap_markers(fdb_snapshot_info_t*, uint64_t);
uint64_t fdb_get_buffer_cache_used(void);
fdb_config fdb_get_default_config(void);
fdb_kvs_config fdb_get_default_kvs_config(void);
fdb_status fdb_iterator_init(fdb_kvs_handle*, fdb_iterator**, const void*, size_t, const void*, size_t, fdb_iterator_opt_t);
fdb_status fdb_iterator_sequence_init(fdb_kvs_handle*, fdb_iterator**, const fdb_seqnum_t, const fdb_seqnum_t, fdb_iterator_opt_t);
fdb_status fdb_iterator_close(fdb_iterator*);
fdb_status fdb_iterator_get(fdb_iterator*, fdb_doc**);
fdb_status fdb_iterator_get_metaonly(fdb_iterator*, fdb_doc**);
fdb_status fdb_iterator_next(fdb_iterator*);
fdb_status fdb_iterator_prev(fdb_iterator*);
fdb_status fdb_iterator_seek(fdb_iterator*, const void*, const size_t, const fdb_iterator_seek_opt_t);
fdb_status fdb_iterator_seek_byseq(fdb_iterator*, const fdb_seqnum_t, const fdb_iterator_seek_opt_t);
fdb_status fdb_iterator_seek_to_min(fdb_iterator*);
fdb_status fdb_iterator_seek_to_max(fdb_iterator*);
fdb_status fdb_traverse_index(fdb_kvs_handle*, const void*, size_t, fdb_index_traversal_callback, void*);
fdb_status fdb_set_log_callback_ex_global(fdb_log_callback_ex, void*);
fdb_status fdb_shutdown(void);
fdb_status fdb_init(fdb_config*);
void fdb_print_cache_stats(void);
fdb_status fdb_cancel_compaction(fdb_file_handle*);
#ifdef __cplusplus
}
#endif
