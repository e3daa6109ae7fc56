"""Sizes of the checks. 'quick' is a number of cases: runs are bounded by work, not by time."""
CHECKS = {
    'C01': dict(quick=24000, thorough=600000, require=['operations']),
    'C02': dict(quick=60000, thorough=1500000, require=['locate_hit', 'locate_miss', 'compares', 'replacements', 'strcasestr_hit', 'long_needles']),
    'C03': dict(quick=60000, thorough=1500000, require=['splits', 'split_none', 'chunks', 'drops', 'implodes', 'implode_split', 'ints_read', 'many_tokens', 'long_delimiters']),
    'C04': dict(quick=60000, thorough=1500000, require=['limited_handoffs', 'positional_handoffs', 'limited_copies', 'handoffs', 'prepends', 'destructions', 'long_contents']),
    'C05': dict(quick=40000, thorough=800000, require=['formats', 'formats_long', 'numbers', 'dumps', 'datetimes', 'datetimes_refused', 'vast_dumps']),
    'C41': dict(quick=16000, thorough=400000, require=['integer_helpers', 'references_refused', 'last_releases', 'fills', 'pictures', 'random_integers']),
    'C07': dict(quick=16000, thorough=400000, require=['inserts', 'inserts_refused', 'reads', 'batch_inserts', 'batch_reads', 'wraps', 'culls', 'large_batches', 'empty_peeks', 'record_rings']),
    'C08': dict(quick=40000, thorough=1000000, require=['inserts', 'head_inserts', 'removals', 'position_removals', 'value_removals', 'duplicates_removed', 'clears', 'vast_lists']),
    'C09': dict(quick=40000, thorough=1000000, require=['inserts', 'dequeues', 'recycled', 'raises_moving', 'drops_moving', 'value_removals', 'duplicates_removed', 'long_queues']),
    'C10': dict(quick=24000, thorough=600000, require=['pool_takes', 'overdraws', 'pool_gives', 'overdraws_freed', 'large_pools', 'vast_pools']),
    'C37': dict(quick=24000, thorough=600000, require=['starts', 'completions', 'faults', 'recyclings', 'jobs_refused', 'purged_by_client', 'queue_purges', 'active_purges', 'dispatched_at_once', 'censuses', 'device_transfers', 'large_pools', 'made_jobs', 'job_answers']),
    'C42': dict(quick=40000, thorough=1000000, require=['writes', 'pushes', 'partial_pushes', 'refused_pushes', 'reads', 'consumer_bytes', 'wire_overruns', 'resets', 'vast_rings']),
    'C11': dict(quick=24000, thorough=600000, require=['plans', 'plans_refused', 'plans_truncated', 'advances', 'advances_refused', 'advances_waiting', 'prepends_moving', 'planned_in_entry', 'longer_lockouts_kept', 'console_slowdowns', 'resets', 'prints', 'long_plans']),
    'C12': dict(quick=24000, thorough=600000, require=['requests', 'resets', 'full_resets', 'polls', 'callbacks', 'reentrant_calls', 'imports', 'steps_home', 'steps_failed', 'fulfilled', 'circular', 'prints']),
    'C13': dict(quick=24000, thorough=600000, require=['adds', 'adds_refused', 'ticks', 'ticks_in_work', 'delays', 'executions', 'runs_out', 'disabled_in_queue', 'skipped_disabled', 'many_schedules', 'jitters', 'jitters_over_the_wrap']),
    'C14': dict(quick=40000, thorough=1000000, require=['resets', 'expired', 'pending', 'across_wrap', 'triggers', 'period_changes', 'measurements', 'idle_stops', 'watch_resets', 'readings', 'prints']),
    'C15': dict(quick=24000, thorough=600000, require=['equal', 'unequal', 'prints', 'short_prints', 'parsed_full', 'parsed_partial', 'round_trips', 'generated', 'spreads']),
    'C16': dict(quick=40000, thorough=1000000, require=['values_found', 'values_missing', 'names_found', 'names_missing', 'names_catch_all', 'flag_ops', 'unit_strings']),
    'C43': dict(quick=24000, thorough=600000, require=['points', 'points_displaced', 'ignored', 'starts', 'starts_repeated', 'stops', 'stops_idle', 'path_times_seen', 'across_wrap', 'resets', 'exports', 'paths_encoded', 'starts_at_zero', 'long_traces', 'same_instant']),
    'C17': dict(quick=40000, thorough=1000000, require=['buffers', 'vectors', 'vectors_short', 'reads_same', 'reads_converted', 'reads_refused', 'sets', 'sets_refused', 'sets_from_value', 'references', 'strings_given', 'strings_copied', 'strings_replaced', 'references_replaced', 'buffers_from_value', 'prints']),
    'C20': dict(quick=40000, thorough=1000000, require=['damaged_streams', 'cuts', 'events', 'errors_reported', 'encoded', 'typed_arrays', 'random_streams', 'outputs_overflowed', 'wellformed_streams', 'large_arrays']),
    'C18': dict(quick=60000, thorough=1500000, require=['maps', 'map_records', 'value_records', 'vectors_or_builders', 'integers', 'texts', 'buffers', 'reals_and_booleans', 'deep_maps', 'appended', 'unserialized', 'read_back', 'round_trips_twice', 'maps_of_hundreds']),
    'C19': dict(quick=20000, thorough=500000, require=['not_one_item', 'no_such_value', 'values', 'may_be_values', 'unparsable_consumed', 'good_input_afterwards', 'unserialized', 'not_unserialized', 'bombs', 'followed', 'prefixes', 'mutants', 'flat_maps', 'flat_odd']),
    'C21': dict(quick=40000, thorough=1000000, require=['appends', 'links', 'lists_linked', 'drops', 'root_drops', 'strangers', 'cuts', 'key_changes', 'value_changes', 'found', 'not_found', 'read_by_key', 'indexed', 'keys_listed', 'printed', 'borrowed_left', 'deleted', 'long_lists', 'own_keys']),
    'C23': dict(quick=40000, thorough=1000000, require=['full_takes', 'part_takes', 'refusals', 'invalid_texts', 'damaged_texts', 'round_trips', 'long_values']),
    'C24': dict(quick=24000, thorough=600000, require=['sinks', 'forks', 'codecs', 'pass_throughs', 'exchanges', 'polls', 'refusals', 'full_takes', 'part_takes', 'drained', 'values_pushed', 'values_refused', 'values_delivered', 'too_long_values', 'nulls', 'large_pushes', 'breaches_seen', 'fixture_polls', 'fixture_resets', 'stagnations', 'expectations']),
    'C25': dict(quick=40000, thorough=1000000, require=['matches', 'searches_with_matches', 'searches_without', 'cut_off_tails', 'bad_searches', 'terms_refused', 'abandoned', 'many_matches', 'long_needles', 'far_texts', 'cut_off_needles']),
    'C26': dict(quick=24000, thorough=600000, require=['overwrites', 'stats_of_a_full_window', 'stats_without', 'snrs', 'medians_between', 'bulk_updates', 'copies_absolute', 'copies_recent', 'purges', 'depth_changes', 'depth_refused', 'round_trips', 'vast_windows', 'vast_feeds', 'copies_wrapping']),
    'C27': dict(quick=24000, thorough=600000, require=['outputs_raw', 'outputs_average', 'outputs_median', 'outputs_vector', 'stats', 'stats_without', 'extreme_vectors', 'bulk_updates', 'purges', 'depth_changes', 'depth_refused', 'strategy_changes', 'serialized', 'deep_windows']),
    'C28': dict(quick=24000, thorough=600000, require=['pushes', 'lines ended', 'commands run', 'commands by shortcut', 'commands in another case', 'commands with too few arguments', 'unknown commands', 'settings changed by command', 'commands run that failed', 'histories read', 'logs fetched', 'overlong inputs dropped', 'backspaces with something to erase', 'helps read', 'unsolicited prints']),
    'C29': dict(quick=24000, thorough=800000, require=['headers_written', 'edited_valid', 'edited_invalid', 'damaged_headers', 'refused', 'too_short', 'incomplete', 'bare', 'complete', 'made_up_ids', 'lengths_refused', 'messages_written', 'received_whole', 'pieces', 'payloads_compared', 'replies', 'replies_refused', 'oversize_or_invalid']),
    'C30': dict(quick=3000, thorough=60000, require=['established', 'messages_sent', 'messages_delivered', 'replies_delivered', 'counter_questions', 'remote_logs', 'hangups', 'hangups_amid_traffic', 'sessions_of_traffic', 'left_unanswered', 'sends_refused', 'messages_of_exactly_the_limit', 'same_numbers', 'console_hangups', 'halfway_messages', 'console_talks', 'sync_casts', 'identities_known', 'identities_changed', 'related_identifiers', 'long_timeouts', 'large_limits']),
    'C31': dict(quick=12000, thorough=300000, require=['messages_emitted', 'replies_emitted', 'sent', 'live_steps', 'sane_messages', 'syncs', 'around_the_limit', 'huge_lengths', 'console_commands', 'cut', 'damaged', 'noise', 'handed_to_application', 'handed_to_service', 'answers', 'resets', 'forced_hangups', 'recoveries', 'handed_after_recovery', 'messages_after_recovery', 'fresh_sessions', 'faults_scrambled', 'faults_doubled', 'faults_invented', 'faults_flipped', 'faults_lost', 'hung_up_by_noise', 'outages', 'identities_learned']),
    'C22': dict(quick=24000, thorough=600000, require=['alone', 'as_values', 'in_maps', 'read_back', 'read_back_partial', 'fed_after', 'peer_whole', 'peer_partial', 'unusable_values', 'unusable_types', 'unknown_keys', 'reordered', 'no_series', 'damaged_read', 'damaged_refused', 'damaged_series', 'damaged_watches', 'watches', 'peer_watches', 'sent_on']),
    'C33': dict(quick=24000, thorough=600000, require=['read_back', 'maps', 'kept', 'generated', 'from_text', 'short_text', 'from_bytes', 'short_buffers', 'prints', 'cut_names', 'offered_good', 'offered_bad', 'offered_in_maps', 'exchanges', 'told_by_links', 'changed_identities']),
    'C34': dict(quick=24000, thorough=500000, require=['agreements', 'unknown_keys', 'gets', 'saves', 'loads', 'refused_loads', 'refused_conversions', 'conversions', 'hostile_refused', 'hostile_taken', 'foreign_refused', 'foreign_loads', 'prints', 'plain_records', 'large_records']),
    'C35': dict(quick=24000, thorough=300000, require=['comparisons', 'trips', 'trips_refused', 'lent', 'bounds', 'resizes', 'resizes_refused', 'copies', 'copies_refused', 'chars', 'texts', 'twins', 'fills', 'circles', 'bitmaps', 'round_rects', 'maps', 'lines', 'pixels_set', 'pixels_refused', 'triangles', 'rgb_pixels', 'ellipses', 'reads']),
    'C38': dict(quick=40000, thorough=400000, require=['formatted', 'lines', 'lines_below', 'fetches', 'parts', 'refusals', 'takes', 'long_lines', 'empty_formatted']),
    'C39': dict(quick=24000, thorough=240000, require=['valid', 'reports', 'parsed', 'rejected', 'distances', 'malformed', 'cut', 'odd_fields', 'damaged', 'long', 'garbage', 'floods', 'wrong_sums', 'without_sum', 'lengthy_streams']),
    'C40': dict(quick=60000, thorough=1500000, require=['integer_results', 'integer_angles', 'projections', 'angles', 'vectors', 'parallel', 'quaternions', 'downs']),
    'C36': dict(quick=24000, thorough=600000, require=['copies', 'reductions', 'enlargements', 'bars_judged', 'needles', 'vectors', 'graphs_judged', 'accents', 'grids', 'bounds_checked', 'anywhere', 'labelled_graphs', 'x_labels', 'y_labels', 'value_labels', 'accent_labels_right', 'accent_labels_at_the_edge', 'accent_labels_left', 'figures']),
    'C44': dict(quick=24000, thorough=600000, require=['delivered', 'delivered_errors', 'forked', 'conventions_converted', 'conventions_alike', 'stored', 'called_back', 'mismatched', 'filter_outputs', 'filter_refused', 'relayed', 'not_relayed', 'rolls', 'pitches', 'bearings', 'tilted_bearings', 'declinations', 'printed', 'terminus_reads', 'resets', 'reconnected', 'relay_flags']),
    'C46': dict(quick=24000, thorough=600000, require=['plots', 'linears', 'hilberts', 'refused', 'nothing', 'mapped', 'unmapped', 'fenced', 'shaded', 'wipes', 'vast_images']),
    'C45': dict(quick=24000, thorough=600000, require=['events', 'claimed', 'unclaimed', 'told', 'passed_on', 'logged', 'drags', 'renders', 'drawn', 'undrawn', 'moves', 'resizes', 'frames', 'mutes', 'removed', 'reaped', 'presses', 'no_presses', 'buttons_drawn', 'slides', 'slid', 'values_set', 'sliders_drawn', 'tabs', 'tab_touches', 'tab_scrolls', 'pane_turns', 'large_images', 'crowds', 'pane_unforced']),
    'C47': dict(quick=16000, thorough=400000, require=['text_renders', 'lines_shown', 'lines_cut', 'more_than_fits', 'scrolled_views', 'scrolls', 'no_scrolls', 'pushes', 'overflows', 'lines_lost', 'clears', 'resizes', 'list_renders', 'steps_passed', 'steps_failed', 'steps_running', 'steps_requested', 'steps_idle', 'lists_passed', 'lists_failed', 'watch_renders', 'all_the_same', 'means_seen', 'bars', 'watch_resets', 'value_renders', 'frozen_renders', 'types_shown', 'blob_renders', 'magnified', 'zooms', 'bounds', 'bounds_refused', 'values_wiped', 'wrapped_traces', 'large_images']),
    'C48': dict(quick=6000, thorough=200000, require=['identity_renders', 'identity_lines', 'scheduler_renders', 'profilers_shown', 'schedules_added', 'schedules_shown', 'more_than_fit', 'toggles', 'tab_changes', 'link_renders', 'overview_lines', 'polls', 'pushes', 'casts_set', 'casts_touched', 'hangups', 'buttons_shown', 'identities_shown', 'tree_renders', 'keys_shown', 'nested_shown', 'rows_hidden', 'trees_changed', 'trees_redrawn', 'long_idles']),
    'C49': dict(quick=24000, thorough=600000, require=['pin_modes_set', 'pin_modes_refused', 'pins_read', 'reads_refused', 'failed_reads', 'pins_written', 'writes_refused', 'mode_lists', 'nonsense', 'reboots', 'reboots_refused', 'platform_questions', 'platform_facts', 'jobs', 'polls_that_started', 'polls_that_ended', 'purges', 'ragepurges', 'listings', 'long_listings', 'verbosities', 'bus_restarts', 'censuses', 'censuses_refused', 'censuses_purged']),
    'C50': dict(quick=16000, thorough=800000, require=['renders', 'tabs_seen', 'empties', 'frozen', 'moves', 'blobs_changed', 'wipes', 'style_tabs', 'plot_tabs', 'unfenced', 'linears', 'hilberts', 'mutes', 'wrapped_traces', 'refusals', 'nothing', 'lengths', 'too_long']),
}
NOT = {}
