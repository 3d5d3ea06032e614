none! {
    napi_add_async_cleanup_hook
    napi_add_finalizer
    napi_adjust_external_memory
    napi_async_destroy
    napi_async_init
    napi_call_function
    napi_cancel_async_work
    napi_close_callback_scope
    napi_close_escapable_handle_scope
    napi_close_handle_scope
    napi_coerce_to_number
    napi_coerce_to_object
    napi_create_arraybuffer
    napi_create_async_work
    napi_create_bigint_int64
    napi_create_bigint_uint64
    napi_create_bigint_words
    napi_create_dataview
    napi_create_date
    napi_create_external
    napi_create_external_arraybuffer
    napi_create_range_error
    napi_create_string_latin1
    napi_create_string_utf16
    napi_create_symbol
    napi_create_type_error
    napi_create_typedarray
    napi_define_properties
    napi_delete_async_work
    napi_delete_element
    napi_delete_property
    napi_detach_arraybuffer
    napi_escape_handle
    napi_fatal_error
    napi_fatal_exception
    napi_get_all_property_names
    napi_get_arraybuffer_info
    napi_get_dataview_info
    napi_get_date_value
    napi_get_instance_data
    napi_get_last_error_info
    napi_get_new_target
    napi_get_node_version
    napi_get_property_names
    napi_get_prototype
    napi_get_typedarray_info
    napi_get_uv_event_loop
    napi_get_value_bigint_int64
    napi_get_value_bigint_uint64
    napi_get_value_bigint_words
    napi_get_value_external
    napi_get_value_string_latin1
    napi_get_value_string_utf16
    napi_get_version
    napi_has_element
    napi_has_own_property
    napi_has_property
    napi_is_arraybuffer
    napi_is_dataview
    napi_is_date
    napi_is_detached_arraybuffer
    napi_is_typedarray
    napi_make_callback
    napi_module_register
    napi_object_freeze
    napi_object_seal
    napi_open_callback_scope
    napi_open_escapable_handle_scope
    napi_open_handle_scope
    napi_queue_async_work
    napi_remove_async_cleanup_hook
    napi_remove_wrap
    napi_run_script
    napi_set_instance_data
    napi_strict_equals
    napi_throw_range_error
    napi_throw_type_error
    node_api_create_external_string_latin1
    node_api_create_external_string_utf16
    node_api_create_syntax_error
    node_api_get_module_file_name
    node_api_symbol_for
    node_api_throw_syntax_error
}
