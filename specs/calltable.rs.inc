// ---- functions as values: the entries of the tables
#[allow(non_camel_case_types)]
pub enum Plain { fn_nilled, fn_string, fn_data, fn_abs, fn_ceiling, fn_floor, fn_round, fn_number, fn_codepoints_to_string, fn_string_to_codepoints, fn_compare, fn_codepoint_equal, fn_concat, fn_string_join, fn_substring, fn_string_length, fn_normalize_space, fn_upper_case, fn_lower_case, fn_translate, fn_contains, fn_starts_with, fn_ends_with, fn_substring_before, fn_substring_after, fn_true, fn_false, fn_boolean, fn_not, fn_name, fn_local_name, fn_namespace_uri, fn_lang, fn_root, fn_empty, fn_exists, fn_head, fn_tail, fn_insert_before, fn_remove, fn_reverse, fn_subsequence, fn_index_of, fn_zero_or_one, fn_one_or_more, fn_exactly_one, fn_count, fn_avg, fn_max, fn_min, fn_sum, map_size, map_keys, map_contains, map_get, array_size, array_get, array_flatten }
/// the numbers of arguments the function is made for
spec fn fits(f: Plain, n: int) -> bool { match f { Plain::fn_compare => n == 2, Plain::fn_boolean => n == 1, Plain::fn_not => n == 1, Plain::fn_nilled => n >= 1, Plain::fn_string => n >= 1, Plain::fn_data => n >= 1, Plain::fn_abs => n >= 1, Plain::fn_ceiling => n >= 1, Plain::fn_floor => n >= 1, Plain::fn_round => n >= 1, Plain::fn_number => n >= 1, Plain::fn_codepoints_to_string => n >= 1, Plain::fn_string_to_codepoints => n >= 1, Plain::fn_codepoint_equal => n >= 2, Plain::fn_string_join => n >= 1, Plain::fn_substring => n >= 2, Plain::fn_string_length => n >= 1, Plain::fn_normalize_space => n >= 1, Plain::fn_upper_case => n >= 1, Plain::fn_lower_case => n >= 1, Plain::fn_translate => n >= 3, Plain::fn_contains => n >= 2, Plain::fn_starts_with => n >= 2, Plain::fn_ends_with => n >= 2, Plain::fn_substring_before => n >= 2, Plain::fn_substring_after => n >= 2, Plain::fn_name => n >= 1, Plain::fn_local_name => n >= 1, Plain::fn_namespace_uri => n >= 1, Plain::fn_lang => n >= 2, Plain::fn_root => n >= 1, Plain::fn_empty => n >= 1, Plain::fn_exists => n >= 1, Plain::fn_head => n >= 1, Plain::fn_tail => n >= 1, Plain::fn_insert_before => n >= 3, Plain::fn_remove => n >= 2, Plain::fn_reverse => n >= 1, Plain::fn_subsequence => n >= 2, Plain::fn_index_of => n >= 2, Plain::fn_zero_or_one => n >= 1, Plain::fn_one_or_more => n >= 1, Plain::fn_exactly_one => n >= 1, Plain::fn_count => n >= 1, Plain::fn_avg => n >= 1, Plain::fn_max => n >= 1, Plain::fn_min => n >= 1, Plain::fn_sum => n >= 1, Plain::map_size => n >= 1, Plain::map_keys => n >= 1, Plain::map_contains => n >= 2, Plain::map_get => n >= 2, Plain::array_size => n >= 1, Plain::array_get => n >= 2, Plain::array_flatten => n >= 1, _ => true } }
/// what the contract of the function says about a call
spec fn plain_ran(f: Plain, args: &Vec<&XSequence>, r: Result<XSequence, VErr>) -> bool { match f {
    Plain::fn_nilled => call_ensures(fn_nilled, (args,), r),
    Plain::fn_string => call_ensures(fn_string, (args,), r),
    Plain::fn_data => call_ensures(fn_data, (args,), r),
    Plain::fn_abs => call_ensures(fn_abs, (args,), r),
    Plain::fn_ceiling => call_ensures(fn_ceiling, (args,), r),
    Plain::fn_floor => call_ensures(fn_floor, (args,), r),
    Plain::fn_round => call_ensures(fn_round, (args,), r),
    Plain::fn_number => call_ensures(fn_number, (args,), r),
    Plain::fn_codepoints_to_string => call_ensures(fn_codepoints_to_string, (args,), r),
    Plain::fn_string_to_codepoints => call_ensures(fn_string_to_codepoints, (args,), r),
    Plain::fn_compare => call_ensures(fn_compare, (args,), r),
    Plain::fn_codepoint_equal => call_ensures(fn_codepoint_equal, (args,), r),
    Plain::fn_concat => call_ensures(fn_concat, (args,), r),
    Plain::fn_string_join => call_ensures(fn_string_join, (args,), r),
    Plain::fn_substring => call_ensures(fn_substring, (args,), r),
    Plain::fn_string_length => call_ensures(fn_string_length, (args,), r),
    Plain::fn_normalize_space => call_ensures(fn_normalize_space, (args,), r),
    Plain::fn_upper_case => call_ensures(fn_upper_case, (args,), r),
    Plain::fn_lower_case => call_ensures(fn_lower_case, (args,), r),
    Plain::fn_translate => call_ensures(fn_translate, (args,), r),
    Plain::fn_contains => call_ensures(fn_contains, (args,), r),
    Plain::fn_starts_with => call_ensures(fn_starts_with, (args,), r),
    Plain::fn_ends_with => call_ensures(fn_ends_with, (args,), r),
    Plain::fn_substring_before => call_ensures(fn_substring_before, (args,), r),
    Plain::fn_substring_after => call_ensures(fn_substring_after, (args,), r),
    Plain::fn_true => call_ensures(fn_true, (args,), r),
    Plain::fn_false => call_ensures(fn_false, (args,), r),
    Plain::fn_boolean => call_ensures(fn_boolean, (args,), r),
    Plain::fn_not => call_ensures(fn_not, (args,), r),
    Plain::fn_name => call_ensures(fn_name, (args,), r),
    Plain::fn_local_name => call_ensures(fn_local_name, (args,), r),
    Plain::fn_namespace_uri => call_ensures(fn_namespace_uri, (args,), r),
    Plain::fn_lang => call_ensures(fn_lang, (args,), r),
    Plain::fn_root => call_ensures(fn_root, (args,), r),
    Plain::fn_empty => call_ensures(fn_empty, (args,), r),
    Plain::fn_exists => call_ensures(fn_exists, (args,), r),
    Plain::fn_head => call_ensures(fn_head, (args,), r),
    Plain::fn_tail => call_ensures(fn_tail, (args,), r),
    Plain::fn_insert_before => call_ensures(fn_insert_before, (args,), r),
    Plain::fn_remove => call_ensures(fn_remove, (args,), r),
    Plain::fn_reverse => call_ensures(fn_reverse, (args,), r),
    Plain::fn_subsequence => call_ensures(fn_subsequence, (args,), r),
    Plain::fn_index_of => call_ensures(fn_index_of, (args,), r),
    Plain::fn_zero_or_one => call_ensures(fn_zero_or_one, (args,), r),
    Plain::fn_one_or_more => call_ensures(fn_one_or_more, (args,), r),
    Plain::fn_exactly_one => call_ensures(fn_exactly_one, (args,), r),
    Plain::fn_count => call_ensures(fn_count, (args,), r),
    Plain::fn_avg => call_ensures(fn_avg, (args,), r),
    Plain::fn_max => call_ensures(fn_max, (args,), r),
    Plain::fn_min => call_ensures(fn_min, (args,), r),
    Plain::fn_sum => call_ensures(fn_sum, (args,), r),
    Plain::map_size => call_ensures(map_size, (args,), r),
    Plain::map_keys => call_ensures(map_keys, (args,), r),
    Plain::map_contains => call_ensures(map_contains, (args,), r),
    Plain::map_get => call_ensures(map_get, (args,), r),
    Plain::array_size => call_ensures(array_size, (args,), r),
    Plain::array_get => call_ensures(array_get, (args,), r),
    Plain::array_flatten => call_ensures(array_flatten, (args,), r) } }
fn run_plain(f: &Plain, args: &Vec<&XSequence>) -> (r: Result<XSequence, VErr>)
    requires fits(*f, args@.len() as int)
    ensures plain_ran(*f, args, r)
{ match f {
    Plain::fn_nilled => fn_nilled(args),
    Plain::fn_string => fn_string(args),
    Plain::fn_data => fn_data(args),
    Plain::fn_abs => fn_abs(args),
    Plain::fn_ceiling => fn_ceiling(args),
    Plain::fn_floor => fn_floor(args),
    Plain::fn_round => fn_round(args),
    Plain::fn_number => fn_number(args),
    Plain::fn_codepoints_to_string => fn_codepoints_to_string(args),
    Plain::fn_string_to_codepoints => fn_string_to_codepoints(args),
    Plain::fn_compare => fn_compare(args),
    Plain::fn_codepoint_equal => fn_codepoint_equal(args),
    Plain::fn_concat => fn_concat(args),
    Plain::fn_string_join => fn_string_join(args),
    Plain::fn_substring => fn_substring(args),
    Plain::fn_string_length => fn_string_length(args),
    Plain::fn_normalize_space => fn_normalize_space(args),
    Plain::fn_upper_case => fn_upper_case(args),
    Plain::fn_lower_case => fn_lower_case(args),
    Plain::fn_translate => fn_translate(args),
    Plain::fn_contains => fn_contains(args),
    Plain::fn_starts_with => fn_starts_with(args),
    Plain::fn_ends_with => fn_ends_with(args),
    Plain::fn_substring_before => fn_substring_before(args),
    Plain::fn_substring_after => fn_substring_after(args),
    Plain::fn_true => fn_true(args),
    Plain::fn_false => fn_false(args),
    Plain::fn_boolean => fn_boolean(args),
    Plain::fn_not => fn_not(args),
    Plain::fn_name => fn_name(args),
    Plain::fn_local_name => fn_local_name(args),
    Plain::fn_namespace_uri => fn_namespace_uri(args),
    Plain::fn_lang => fn_lang(args),
    Plain::fn_root => fn_root(args),
    Plain::fn_empty => fn_empty(args),
    Plain::fn_exists => fn_exists(args),
    Plain::fn_head => fn_head(args),
    Plain::fn_tail => fn_tail(args),
    Plain::fn_insert_before => fn_insert_before(args),
    Plain::fn_remove => fn_remove(args),
    Plain::fn_reverse => fn_reverse(args),
    Plain::fn_subsequence => fn_subsequence(args),
    Plain::fn_index_of => fn_index_of(args),
    Plain::fn_zero_or_one => fn_zero_or_one(args),
    Plain::fn_one_or_more => fn_one_or_more(args),
    Plain::fn_exactly_one => fn_exactly_one(args),
    Plain::fn_count => fn_count(args),
    Plain::fn_avg => fn_avg(args),
    Plain::fn_max => fn_max(args),
    Plain::fn_min => fn_min(args),
    Plain::fn_sum => fn_sum(args),
    Plain::map_size => map_size(args),
    Plain::map_keys => map_keys(args),
    Plain::map_contains => map_contains(args),
    Plain::map_get => map_get(args),
    Plain::array_size => array_size(args),
    Plain::array_get => array_get(args),
    Plain::array_flatten => array_flatten(args) } }
#[allow(non_camel_case_types)]
pub enum Focus { fn_nilled_0, fn_string_0, fn_data_0, fn_number_0, fn_string_length_0, fn_normalize_space_0, fn_name_0, fn_local_name_0, fn_namespace_uri_0, fn_lang_1, fn_root_0, fn_position, fn_last, fn_for_each, fn_filter }
spec fn focus_fits(f: Focus, n: int) -> bool { match f { Focus::fn_lang_1 => n >= 1, Focus::fn_for_each => n >= 2, Focus::fn_filter => n >= 2, _ => true } }
fn run_focus(f: &Focus, args: &Vec<&XSequence>, context_xseq: &XSequence, eval_env: &mut EvalEnv) -> (r: Result<XSequence, VErr>)
    requires focus_fits(*f, args@.len() as int)
    ensures focus_ran(*f, vals_of(args@), context_xseq, env_of(*old(eval_env)), r), r is Ok ==> env_of(*final(eval_env)) == env_of(*old(eval_env))
{ match f {
    Focus::fn_nilled_0 => fn_nilled_0(args, context_xseq, eval_env),
    Focus::fn_string_0 => fn_string_0(args, context_xseq, eval_env),
    Focus::fn_data_0 => fn_data_0(args, context_xseq, eval_env),
    Focus::fn_number_0 => fn_number_0(args, context_xseq, eval_env),
    Focus::fn_string_length_0 => fn_string_length_0(args, context_xseq, eval_env),
    Focus::fn_normalize_space_0 => fn_normalize_space_0(args, context_xseq, eval_env),
    Focus::fn_name_0 => fn_name_0(args, context_xseq, eval_env),
    Focus::fn_local_name_0 => fn_local_name_0(args, context_xseq, eval_env),
    Focus::fn_namespace_uri_0 => fn_namespace_uri_0(args, context_xseq, eval_env),
    Focus::fn_lang_1 => fn_lang_1(args, context_xseq, eval_env),
    Focus::fn_root_0 => fn_root_0(args, context_xseq, eval_env),
    Focus::fn_position => fn_position(args, context_xseq, eval_env),
    Focus::fn_last => fn_last(args, context_xseq, eval_env),
    Focus::fn_for_each => fn_for_each(args, context_xseq, eval_env),
    Focus::fn_filter => fn_filter(args, context_xseq, eval_env) } }
