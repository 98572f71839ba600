"""class members, constants the contracts refer to (offsets are recomputed by clang on every run)"""
HEADERS = ["db.h", "dict.h", "dict_mem.h", "free_list.h", "lock_free.h", "mb_data.h", "error.h", "util/mb_lsq.h",
           "mabain_consts.h", "drm_base.h", "rollable_file.h", "mmap_file.h", "file_io.h", "mb_rc.h", "async_writer.h",
           "util/prefix_cache.h", "detail/search_engine.h", "shm_queue_mgr.h"]


def _m(cls, names):
    return [(cls, n) for n in names.split()]


OFFS = (_m("MBlsq", "head tail count FreeFunc") + _m("_LSQ_Node", "data next")
        + _m("FreeList", "alignment max_num_buffer max_buffer_per_list buffer_free_list count tot_size")
        + _m("DictMem", "options header kv_file free_lists node_size is_valid root_offset node_ptr lfree root_offset_rc")
        + _m("Dict", "options header kv_file free_lists mm status lfree reader_rc_off queue slaq prefix_cache")
        + _m("IndexHeader", "count data_size m_data_offset m_index_offset pending_data_buff_size pending_index_buff_size "
             "n_states n_edges edge_str_size lock_free index_block_size data_block_size entry_per_bucket num_update "
             "eviction_bucket_index excep_updating_status excep_buff excep_offset excep_lf_offset rc_m_index_off_pre "
             "rc_m_data_off_pre rc_root_offset rc_count rebuild_active jemalloc_index_free_start jemalloc_data_free_start "
             "reader_epoch_tracking_active reader_epoch_slot_count reader_epoch reader_epoch_slot async_queue_size "
             "queue_index writer_index rc_flag pfxcache_offset pfxcache_size")
        + _m("LockFree", "shm_data_ptr header") + _m("LockFreeShmData", "counter offset offset_cache")
        + _m("EdgePtrs", "offset ptr len_ptr flag_ptr offset_ptr edge_buff curr_nt curr_node_offset curr_edge_index parent_offset")
        + _m("MBData", "data_len buff buff_len data_offset bucket_index options match_len edge_ptrs node_buff free_buffer")
        + _m("NodePtrs", "offset ptr edge_key_ptr edge_ptr")
        + _m("ReaderEpochSlot", "connect_id pid proc_start_time epoch"))
SIZES = ["MBlsq", "_LSQ_Node", "FreeList", "DictMem", "Dict", "IndexHeader", "LockFree", "LockFreeShmData", "EdgePtrs",
         "MBData", "NodePtrs", "RollableFile", "ReaderEpochSlot"]
CONSTS = ["CONSTS::OPTION_JEMALLOC", "CONSTS::OPTION_READ_SAVED_EDGE", "CONSTS::OPTION_FIND_AND_STORE_PARENT",
          "CONSTS::OPTION_INTERNAL_NODE_BOUND", "CONSTS::OPTION_RC_MODE", "CONSTS::OPTION_KEY_ONLY", "CONSTS::ACCESS_MODE_WRITER",
          "CONSTS::FIND_TRAVERSAL_LIMIT", "MBError::SUCCESS", "MBError::NOT_EXIST", "MBError::READ_ERROR",
          "MBError::TRY_AGAIN", "MBError::NO_MEMORY", "MBError::IN_DICT", "MBError::INVALID_ARG", "MBError::OUT_OF_BOUND",
          "MBError::WRITE_ERROR", "MBError::UNKNOWN_ERROR", "MBError::NOT_ALLOWED",
          "EXCEP_STATUS_NONE", "EXCEP_STATUS_ADD_EDGE", "EXCEP_STATUS_ADD_DATA_OFF", "EXCEP_STATUS_ADD_NODE",
          "EXCEP_STATUS_REMOVE_EDGE", "EXCEP_STATUS_CLEAR_EDGE", "EXCEP_STATUS_RC_NODE", "EXCEP_STATUS_RC_EDGE_STR",
          "EXCEP_STATUS_RC_DATA", "EXCEP_STATUS_RC_TREE"]
