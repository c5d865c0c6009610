harnesses! {
    h_part_arith => crate::h_part::arith,
    h_add => crate::h_alloc::add,
    h_add_at => crate::h_alloc::add_at,
    h_free => crate::h_alloc::free,
    h_align => crate::h_alloc::align,
    h_next_id => crate::h_alloc::next_id,
    h_remove => crate::h_alloc::remove,
    h_roundtrip => crate::h_rw::roundtrip,
    h_create => crate::h_hdr::create,
    h_builder => crate::h_hdr::builder,
    h_rebuild => crate::h_hdr::rebuild,
    h_encode => crate::h_hdr::encode,
    h_accept => crate::h_hdr::accept,
    h_entry_write => crate::h_part::entry_write,
    h_entry_read => crate::h_part::entry_read,
    h_name => crate::h_part::name,
    h_name_read => crate::h_part::name_read,
    h_table_read => crate::h_part::table_read,
    h_zero_entries => crate::h_part::zero_entries,
    h_many => crate::h_rw::many,
    h_footprint => crate::h_rw::footprint,
    h_raw => crate::h_rw::raw,
    h_idem => crate::h_rw::idem,
    h_guid_update => crate::h_rw::guid_update,
    h_readonly => crate::h_rw::readonly,
    h_fault => crate::h_rw::fault,
    h_short => crate::h_rw::short,
    h_crash => crate::h_rw::crash,
    h_policy => crate::h_open::policy,
    h_open_any => crate::h_open::open_any,
    h_open_tiny => crate::h_open::open_tiny,
    h_ops_any => crate::h_open::ops_any,
    h_count => crate::h_more::count,
    h_failed => crate::h_more::failed,
    h_history => crate::h_more::history,
    h_copies => crate::h_more::copies,
    h_resized => crate::h_more::resized,
    h_open_fault => crate::h_more::open_fault,
    h_mbr_codec => crate::h_mbr::codec,
    h_mbr_lengths => crate::h_mbr::lengths,
    h_mbr_update => crate::h_mbr::update,
    h_mbr_set => crate::h_mbr::set,
    h_mbr_fault => crate::h_mbr::fault,
    h_type_of => crate::h_misc::type_of,
    h_type_name => crate::h_misc::type_name,
    h_type_text => crate::h_misc::type_text,
    h_type_any => crate::h_misc::type_any,
    h_type_guid_text => crate::h_misc::type_guid_text,
    h_os_name => crate::h_misc::os_name,
    h_options => crate::h_misc::options,
    h_refuse => crate::h_misc::refuse,
    h_texts => crate::h_misc::texts,
    h_blocks => crate::h_misc::blocks,
    h_file => crate::h_file::file,
    h_paths => crate::h_file::paths,
}
