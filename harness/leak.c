// Bytes allocated from the heap at the moment.
pub size_t now() {
	return OS.__sanitizer_get_current_allocated_bytes();
}
