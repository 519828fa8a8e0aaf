//! Which spaces decide which property.
use crate::check::*;
use crate::engine::*;
use crate::gen::*;
use crate::spaces::*;
use crate::spaces2::*;
use crate::spaces3::*;
use crate::spaces4::*;
use crate::spaces5::*;
use crate::spaces6::*;
use crate::spaces7::*;
use crate::spaces8::*;
use crate::spaces9::*;
use crate::spaces10::*;
use crate::spaces11::*;

pub fn explore(cx: &Ctx, prop: u32) {
    let t = cx.thorough;
    let k = |q: usize, th: usize| if t { th } else { q };
    let n = |q: u32, th: u32| if t { th } else { q };
    if (4..=19).contains(&prop) && prop != 18 {
        both_builds(cx, prop);
    }
    recast(cx, prop);
    match prop {
        1 => {
            dict_words(cx, ON);
            dict_numbers(cx, ON);
            dict_sizes(cx, n(5000, 65535) as u64, ON);
            dict_lists(cx, |_| true, n(1100, 5000) as u64, ON);
            index_aliases(cx, |_| true, k(6, 40), &[256], ON);
            near_siblings(cx, &[], ON);
            twin_contents(cx, |_| true, k(12, 40), k(4, 12), ON);
            twin_codes(cx, ON);
            twin_descriptors(cx, ON);
            twin_names(cx, 2, ON);
            relations(cx, 0, ON);
            operand_products(cx, ON);
            member_products(cx, ON);
            code_versions(cx, ON);
            known_classes(cx, ON);
            known_words(cx, |_| true, ON);
            cross_places(cx, |_| true, 1, ON);
            shared_texts(cx, 1, 300, 1000, ON);
            straddling_texts(cx, &[0, 1, 4, 6], ON);
            followed(cx, ON);
            late_places(cx, |_| true, &[300], ON);
            many_codes(cx, &[300], ON);
            attribute_lists(cx, 2, &[64, 300], ON);
            contexts(cx, |_| true, ON);
            copies(cx, &[2], ON);
            member_lists(cx, &[300, 5000], ON);
            near_duplicates(cx, ON);
            long_names(cx, ON);
            long_descriptors(cx, ON);
            debug_lengths(cx, ON);
            varied_lists(cx, |_| true, &[64], false, ON);
            big_pool_references(cx, t, ON);
            long_lists(cx, |_| true, &[255, 256], k(0, 1), ON);
            nesting(cx, if t { &[300, 1000, 3000, 8000, 20000, 65000, 200000] } else { &[300, 1000, 8000, 65000] }, ON);
            nesting(cx, if t { &[300, 8000, 200000] } else { &[300] }, OFF);
            switches(cx, t, ON);
            jumps(cx, t, ON);
            code_bytes(cx, 2, ON);
            code_operands(cx, t, ON);
            pool_graphs(cx, "pools of 2 entries", &[61], 2, true, ON);
            pool_chains(cx, ON);
            pool_references(cx, &[45, 61], t, ON);
            pool_versions(cx, ON);
            pool_sizes(cx, ON);
            truncations(cx, "prefixes and padding", &all_seeds(), ON);
            bytes_all(cx, "single bytes", &all_seeds(), ON);
            bytes_all(cx, "single bytes of whole files, no bytecode", &whole_seeds(), OFF);
            windows16(cx, "16-bit fields", &all_seeds(), ON, &bounds16(300));
            windows32(cx, "32-bit fields", &all_seeds(), ON);
            edits(cx, "insertions and deletions", &all_seeds(), ON);
            families(cx, |_| true, k(1, 2), ON);
            placements(cx, |_| true, ON);
            tag_bytes(cx, ON);
            short_files(cx, n(6, 8), ON);
            descriptor_strings(cx, n(3, 4), &(0..DESC_ROLES).collect::<Vec<_>>(), ON);
            descriptor_limits(cx, ON);
            texts(cx, n(1, 2), n(3, 4), ON);
            long_texts(cx, ON);
            class_names(cx, n(4, 5));
            lookups(cx, n(6, 9));
            scale(cx, if t { &[1, 100, 1000, 4000, 32768, 65535] } else { &[1, 1000, 32768] }, ON);
            scale_cut(cx, ON);
            bootstrap(cx, false, ON);
            members(cx, 1, ON);
            if t {
                families(cx, |_| true, 3, ON);
                code_sequences(cx, 2, ON);
                byte_pairs(cx, "byte pairs", &all_seeds(), ON, &[0, 1, 0x7f, 0xff], 4);
                count_pairs(cx, &whole_seeds(), ON);
                code_bytes(cx, 3, ON);
                pool_graphs(cx, "pools of 3 entries", &[61], 3, false, ON);
            }
        }
        2 => {
            dict_numbers(cx, ON);
            dict_sizes(cx, n(5000, 65535) as u64, ON);
            dict_lists(cx, |_| true, n(300, 5000) as u64, ON);
            shared_texts(cx, k(1, 4), n(20000, 30000) as usize, 65000, ON);
            late_places(cx, |_| true, &[300], ON);
            many_codes(cx, &[300, 20000], ON);
            copies(cx, if t { &[3, 50, 400, 2000] } else { &[400] }, ON);
            attribute_lists(cx, 1, &[300, 4000], ON);
            member_lists(cx, &[300, 65535], ON);
            debug_lengths(cx, ON);
            long_names(cx, ON);
            long_lists(cx, |_| true, &[300], k(1, 2), ON);
            long_lists(cx, |_| true, &[255, 4000, 65535], 0, ON);
            nesting(cx, if t { &[300, 1000, 3000, 8000, 20000, 65000, 200000] } else { &[300, 1000, 8000, 65000] }, ON);
            switches(cx, t, ON);
            scale(cx, if t { &[1, 2, 10, 100, 1000, 4000, 16384, 32768, 65534, 65535] } else { &[1, 100, 4000, 32768, 65535] }, ON);
            scale(cx, if t { &[1, 10, 100, 4000, 32768, 65535] } else { &[4000] }, OFF);
            scale_cut(cx, ON);
            windows32(cx, "32-bit fields", &all_seeds(), ON);
            windows16(cx, "16-bit fields", &all_seeds(), ON, &[0xffff, 0x8000, 0x1000]);
            families(cx, |_| true, k(1, 3), ON);
            placements(cx, |_| true, ON);
            count_pairs(cx, &whole_seeds()[..if t { 4 } else { 1 }], ON);
            lengths(cx, ON);
            pool_sizes(cx, ON);
            descriptor_limits(cx, ON);
            if t {
                bytes_all(cx, "single bytes", &all_seeds(), ON);
                truncations(cx, "prefixes", &all_seeds(), ON);
                code_bytes(cx, 2, ON);
                code_operands(cx, false, ON);
                pool_graphs(cx, "pools of 2 entries", &[61], 2, true, ON);
                byte_pairs(cx, "byte pairs", &all_seeds(), ON, &[0x7f, 0xff], 6);
            }
        }
        3 => {
            dict_words(cx, ON);
            dict_numbers(cx, ON);
            dict_sizes(cx, n(300, 5000) as u64, ON);
            index_aliases(cx, |_| true, k(6, 40), &[256], ON);
            near_siblings(cx, &[], ON);
            twin_contents(cx, |_| true, k(8, 40), k(8, 12), ON);
            twin_codes(cx, ON);
            relations(cx, 0, ON);
            member_products(cx, ON);
            cross_places(cx, |_| true, 1, ON);
            straddling_texts(cx, &[0, 4], ON);
            late_places(cx, |_| true, &[300], ON);
            many_codes(cx, &[300], ON);
            attribute_lists(cx, 2, &[64, 300], ON);
            member_lists(cx, &[300], ON);
            near_duplicates(cx, ON);
            debug_lengths(cx, ON);
            varied_lists(cx, |_| true, &[64], false, ON);
            big_pool_references(cx, t, ON);
            renamed(cx);
            long_lists(cx, |_| true, &[255, 256], k(0, 1), ON);
            pool_graphs(cx, "pools of 1 entry", &[45, 51, 55, 61], 1, true, ON);
            pool_graphs(cx, "pools of 2 entries", if t { &[45, 51, 55, 61] } else { &[61] }, 2, true, ON);
            pool_chains(cx, ON);
            pool_references(cx, &[45, 61], t, ON);
            pool_orders(cx, 3, ON);
            truncations(cx, "prefixes and padding", &all_seeds(), ON);
            bytes_all(cx, "single bytes", &all_seeds(), ON);
            windows16(cx, "16-bit fields", &all_seeds(), ON, &bounds16(300));
            families(cx, |_| true, k(1, 2), ON);
            placements(cx, |_| true, ON);
            scale(cx, &[1, 100, 1000], ON);
            scale_cut(cx, ON);
            texts(cx, 1, n(3, 4), ON);
            bootstrap(cx, false, ON);
            pool_graphs(cx, "pools of 3 entries", &[61], 3, false, ON);
            if t {
                code_bytes(cx, 2, ON);
                bytes_all(cx, "single bytes, no bytecode", &all_seeds(), OFF);
                byte_pairs(cx, "byte pairs", &all_seeds(), ON, &[0, 1, 2, 0xff], 4);
                families(cx, |_| true, 3, ON);
            }
        }
        4 => {
            dict_words(cx, ON);
            dict_numbers(cx, ON);
            dict_sizes(cx, n(300, 5000) as u64, ON);
            near_siblings(cx, &[], ON);
            index_aliases(cx, |_| false, 1, &[256, 512, 1024, 4096, 0x8000], ON);
            many_distinct(cx, n(6, 60) as u64, 64000, ON);
            twin_descriptors(cx, ON);
            twin_names(cx, n(2, 3), ON);
            member_products(cx, ON);
            known_words(cx, |_| true, ON);
            big_pool_references(cx, t, ON);
            pool_orders(cx, n(4, 5), ON);
            pool_versions(cx, ON);
            pool_references(cx, &[45, 61], true, ON);
            numbers(cx, ON);
            pool_sizes(cx, ON);
            pool_graphs(cx, "pools of 2 entries", if t { &[45, 51, 55, 61] } else { &[61] }, 2, true, ON);
            bytes_all(cx, "single bytes of whole files", &whole_seeds(), ON);
            windows16(cx, "16-bit fields of whole files", &whole_seeds(), ON, if t { &[] } else { &U2 });
            texts(cx, 1, 3, ON);
            name_specials(cx, ON);
            descriptor_strings(cx, n(2, 3), &[0, 1, 2, 3, 4, 5, 6, 7, 8], ON);
            long_texts(cx, ON);
            if t {
                pool_graphs(cx, "pools of 3 entries", &[61], 3, false, ON);
            }
        }
        5 => {
            dict_words(cx, ON);
            dict_numbers(cx, ON);
            dict_sizes(cx, n(300, 5000) as u64, ON);
            near_siblings(cx, &[13, 14, 15], ON);
            index_aliases(cx, |_| false, 1, &[256, 512, 1024, 4096, 0x8000], ON);
            twin_descriptors(cx, ON);
            twin_names(cx, 3, ON);
            member_products(cx, ON);
            known_words(cx, |_| true, ON);
            long_names(cx, ON);
            long_descriptors(cx, ON);
            big_pool_references(cx, t, ON);
            pool_versions(cx, ON);
            pool_graphs(cx, "pools of 1 entry", &[45, 51, 52, 53, 55, 61], 1, true, ON);
            pool_chains(cx, ON);
            pool_references(cx, &[45, 49, 50, 51, 52, 53, 54, 55, 61], t, ON);
            pool_sizes(cx, ON);
            pool_graphs(cx, "pools of 2 entries", if t { &[45, 50, 51, 52, 53, 55, 61] } else { &[51, 55, 61] }, 2, true, ON);
            pool_orders(cx, n(3, 4), ON);
            name_specials(cx, ON);
            descriptor_strings(cx, 3, &[2, 3, 4, 5, 6, 7, 8], ON);
            bytes_all(cx, "single bytes of whole files", &whole_seeds(), ON);
            windows16(cx, "16-bit fields of whole files", &whole_seeds(), ON, if t { &[] } else { &U2 });
            pool_graphs(cx, "pools of 3 entries", &[61], 3, false, ON);
            name_strings(cx, n(2, 3), ON);
            if t {
                pool_graphs(cx, "pools of 3 entries, version 53", &[53], 3, false, ON);
            }
        }
        6 => {
            dict_words(cx, ON);
            dict_sizes(cx, n(1100, 65535) as u64, ON);
            near_siblings(cx, &[6, 14, 15], ON);
            straddling_texts(cx, &(0..TEXT_ROLES).collect::<Vec<_>>(), ON);
            all_characters(cx, if t { &[0, 1, 2, 3, 4] } else { &[] }, if t { &[0, 1, 4, 5, 10] } else { &[0, 4] }, ON);
            debug_lengths(cx, ON);
            texts(cx, n(1, 2), n(4, 5), ON);
            long_texts(cx, ON);
            name_specials(cx, ON);
            name_strings(cx, n(1, 2), ON);
            windows16(cx, "16-bit fields of whole files", &whole_seeds(), ON, &U2);
            bytes_all(cx, "single bytes of whole files", &whole_seeds(), ON);
            families(cx, |f| f.attr == "SourceDebugExtension" || f.attr == "SourceFile", 1, ON);
        }
        7 => {
            dict_words(cx, ON);
            dict_numbers(cx, ON);
            dict_sizes(cx, n(300, 5000) as u64, ON);
            dict_lists(cx, |_| true, n(300, 5000) as u64, ON);
            index_aliases(cx, |_| true, k(12, 40), &[256], ON);
            near_siblings(cx, &[], ON);
            twin_contents(cx, |_| true, k(12, 40), 0, ON);
            twin_codes(cx, ON);
            twin_descriptors(cx, ON);
            twin_names(cx, n(2, 3), ON);
            relations(cx, 0, ON);
            operand_products(cx, ON);
            member_products(cx, ON);
            known_words(cx, |_| true, ON);
            cross_places(cx, |_| true, 1, ON);
            straddling_texts(cx, &(0..TEXT_ROLES).collect::<Vec<_>>(), ON);
            all_characters(cx, &[], if t { &[0, 1, 4, 5, 10] } else { &[4] }, ON);
            late_places(cx, |_| true, &[300], ON);
            many_codes(cx, &[300], ON);
            shared_texts(cx, 2, 300, 300, ON);
            attribute_lists(cx, 4, &[64, 300], ON);
            contexts(cx, |_| true, ON);
            member_lists(cx, &[300, 5000], ON);
            long_names(cx, ON);
            long_descriptors(cx, ON);
            debug_lengths(cx, ON);
            varied_lists(cx, |_| true, &[64, 300], false, ON);
            long_lists(cx, |_| true, &[255, 256], k(0, 1), ON);
            families(cx, |_| true, k(1, 2), ON);
            bytes_all(cx, "single bytes of whole files", &whole_seeds(), ON);
            bytes_all(cx, "single bytes of whole files, no bytecode", &whole_seeds(), OFF);
            texts(cx, 1, n(3, 4), ON);
            long_texts(cx, ON);
            descriptor_strings(cx, n(2, 3), &(0..DESC_ROLES).collect::<Vec<_>>(), ON);
            descriptor_lists(cx, n(1, 2), ON);
            descriptor_limits(cx, ON);
            name_specials(cx, ON);
            pool_orders(cx, n(2, 3), ON);
            code_bytes(cx, n(1, 2), ON);
            code_sequences(cx, n(1, 2), ON);
            placements(cx, |_| true, ON);
            pool_references(cx, &[45, 61], t, ON);
            members(cx, 1, ON);
            if t {
                windows16(cx, "16-bit fields of whole files", &whole_seeds(), ON, &bounds16(300));
            }
        }
        8 => {
            dict_words(cx, ON);
            dict_numbers(cx, ON);
            dict_sizes(cx, n(1100, 65535) as u64, ON);
            index_aliases(cx, |_| true, k(2, 40), &[256], ON);
            many_distinct(cx, n(6, 30) as u64, 64000, ON);
            near_siblings(cx, &[], ON);
            twin_contents(cx, |_| true, k(8, 40), 0, ON);
            twin_descriptors(cx, ON);
            twin_names(cx, n(2, 3), ON);
            relations(cx, 0, ON);
            known_classes(cx, ON);
            known_words(cx, |_| true, ON);
            cross_places(cx, |_| true, n(1, 2) as usize, ON);
            late_places(cx, |_| true, &[300], ON);
            attribute_lists(cx, 2, &[64, 255, 256, 300, 4000, 65000], ON);
            contexts(cx, |_| true, ON);
            member_lists(cx, &[9, 255, 256, 300, 5000, 65535], ON);
            near_duplicates(cx, ON);
            special_members(cx, ON);
            flags(cx, ON);
            versions(cx, ON);
            class_refs(cx, t, ON);
            members(cx, 1, ON);
            members(cx, 2, ON);
            modules(cx, ON);
            placements(cx, |_| true, ON);
            bytes_all(cx, "single bytes of whole files", &whole_seeds(), ON);
            windows16(cx, "16-bit fields of whole files", &whole_seeds(), ON, if t { &[] } else { &U2 });
            scale(cx, &[1, 2, 100, 255, 256, 1000, 20000], ON);
            name_strings(cx, 1, ON);
            name_specials(cx, ON);
            if t {
                members(cx, 3, ON);
            }
        }
        9 => {
            dict_words(cx, ON);
            dict_numbers(cx, ON);
            dict_sizes(cx, n(1100, 65535) as u64, ON);
            near_siblings(cx, &[8, 11, 14, 15], ON);
            many_distinct(cx, n(40, 400) as u64, 64000, ON);
            twin_descriptors(cx, ON);
            twin_names(cx, 3, ON);
            relations(cx, 0, ON);
            known_classes(cx, ON);
            known_words(cx, |_| false, ON);
            all_characters(cx, &[0], &[], ON);
            contexts(cx, |f| f.attr == "Synthetic" || f.attr == "Code", ON);
            member_lists(cx, &[9, 17, 33, 64, 255, 256, 300, 1025, 5000, 32769, 65535], ON);
            near_duplicates(cx, ON);
            long_names(cx, ON);
            special_members(cx, ON);
            members(cx, 1, ON);
            members(cx, 2, ON);
            modules(cx, ON);
            versions(cx, ON);
            flags(cx, ON);
            class_refs(cx, t, ON);
            name_strings(cx, n(2, 3), ON);
            name_specials(cx, ON);
            descriptor_strings(cx, n(3, 4), &[0, 1], ON);
            bytes_all(cx, "single bytes of whole files", &whole_seeds(), ON);
            placements(cx, |f| f.attr == "Synthetic" || f.attr == "Unknown", ON);
            if t {
                members(cx, 3, ON);
                windows16(cx, "16-bit fields of whole files", &whole_seeds(), ON, &[]);
            }
        }
        10 => {
            dict_words(cx, ON);
            dict_numbers(cx, ON);
            dict_sizes(cx, n(300, 5000) as u64, ON);
            dict_lists(cx, |_| true, n(300, 5000) as u64, ON);
            index_aliases(cx, |_| true, k(2, 40), &[256], ON);
            near_siblings(cx, &[], ON);
            twin_contents(cx, |_| true, k(12, 40), k(8, 24), ON);
            cross_places(cx, |_| true, n(2, 3) as usize, ON);
            followed(cx, ON);
            late_places(cx, |_| true, &[300], ON);
            attribute_lists(cx, 3, &[64, 300, 4000], ON);
            contexts(cx, |_| true, ON);
            debug_lengths(cx, ON);
            long_lists(cx, |_| true, &[255, 256], k(0, 1), ON);
            truncations(cx, "prefixes and padding", &all_seeds(), ON);
            truncations(cx, "prefixes and padding, no bytecode", &all_seeds(), OFF);
            lengths(cx, ON);
            lengths(cx, OFF);
            placements(cx, |_| true, ON);
            edits(cx, "insertions and deletions", &all_seeds(), ON);
            windows16(cx, "16-bit fields", &all_seeds(), ON, &bounds16(300));
            windows32(cx, "32-bit fields", &all_seeds(), ON);
            families(cx, |_| true, 2, ON);
            bytes_all(cx, "single bytes", &all_seeds(), ON);
            long_texts(cx, ON);
            code_bytes(cx, n(1, 2), ON);
            scale_cut(cx, ON);
            if t {
                edits(cx, "insertions and deletions, no bytecode", &all_seeds(), OFF);
                families(cx, |f| f.attr != "Module", 3, ON);
            }
        }
        11..=13 => {
            index_aliases(cx, |f| f.prop == prop, k(40, 200), if t { &[256, 512, 1024, 4096] } else { &[256, 512] }, ON);
            near_siblings(cx, if prop == 11 { &[11, 16] } else if prop == 12 { &[12] } else { &[13, 10] }, ON);
            dict_words(cx, ON);
            dict_numbers(cx, ON);
            dict_sizes(cx, n(300, 5000) as u64, ON);
            dict_lists(cx, |f| f.prop == prop, n(1100, 65535) as u64, ON);
            twin_contents(cx, |f| f.prop == prop, k(48, 120), k(16, 60), ON);
            relations(cx, prop, ON);
            known_words(cx, |f| f.prop == prop, ON);
            cross_places(cx, |f| f.prop == prop, n(2, 4) as usize, ON);
            late_places(cx, |f| f.prop == prop, &[300, 5000], ON);
            attribute_lists(cx, 6, &[64, 255, 256, 300, 4000], ON);
            contexts(cx, |f| f.prop == prop, ON);
            families(cx, |f| f.prop == prop, if prop == 11 { 3 } else { k(2, 3) }, ON);
            long_lists(cx, |f| f.prop == prop, &[9, 255, 256, 300], 1, ON);
            long_lists(cx, |f| f.prop == prop, &[4000, 32767, 32768, 32769, 65534, 65535], 0, ON);
            varied_lists(cx, |f| f.prop == prop, &[9, 64, 255, 256, 300, 4000, 32769, 65535], true, ON);
            placements(cx, |f| f.prop == prop, ON);
            let s = prop_seeds(prop);
            bytes_all(cx, "single bytes", &s, ON);
            windows16(cx, "16-bit fields", &s, ON, if t { &[] } else { &U2 });
            windows32(cx, "32-bit fields", &s, ON);
            byte_pairs(cx, "byte pairs", &s, ON, &[0, 1, 2, 0x7f, 0x80, 0xff], if t { 8 } else { 3 });
            bytes_all(cx, "single bytes of whole files", &whole_seeds(), ON);
            scale(cx, &[1, 2, 100, 255, 256, 4000, 32767, 32768, 65535], ON);
            if prop != 13 {
                tag_bytes(cx, ON);
                nesting(cx, &[], ON);
            }
            if prop == 13 {
                debug_lengths(cx, ON);
                flags(cx, ON);
                versions(cx, ON);
                name_strings(cx, n(1, 2), ON);
                bootstrap(cx, t, ON);
            }
            if prop == 11 {
                name_strings(cx, n(1, 2), ON);
                descriptor_strings(cx, n(2, 3), &[9], ON);
                bytes_all(cx, "single bytes, no bytecode", &s, OFF);
            }
            if prop == 12 {
                descriptor_strings(cx, n(3, 4), &[10, 11, 12], ON);
            }
            if t {
                families(cx, |f| f.prop == prop && !["Module", "RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations"].contains(&f.attr), 4, ON);
            }
        }
        14 => {
            dict_words(cx, ON);
            dict_sizes(cx, n(1100, 65535) as u64, ON);
            near_siblings(cx, &[14], ON);
            twin_descriptors(cx, ON);
            member_products(cx, ON);
            known_words(cx, |_| false, ON);
            long_descriptors(cx, ON);
            descriptor_strings(cx, 3, &(0..DESC_ROLES).collect::<Vec<_>>(), ON);
            descriptor_lists(cx, 2, ON);
            descriptor_limits(cx, ON);
            descriptor_strings(cx, n(4, 5), &[0, 1, 8, 9], ON);
            descriptor_strings(cx, 4, &(0..DESC_ROLES).collect::<Vec<_>>(), ON);
            descriptor_lists(cx, 3, ON);
        }
        15 => {
            dict_words(cx, ON);
            dict_sizes(cx, n(1100, 65535) as u64, ON);
            near_siblings(cx, &[15], ON);
            many_distinct(cx, n(6, 60) as u64, 64000, ON);
            twin_names(cx, 3, ON);
            twin_descriptors(cx, ON);
            member_products(cx, ON);
            known_words(cx, |_| false, ON);
            all_characters(cx, &if t { (0..NAME_ROLES).collect() } else { NAME_RULES.to_vec() }, &[], ON);
            long_names(cx, ON);
            name_specials(cx, ON);
            name_strings(cx, 4, ON);
            class_names(cx, n(5, 6));
            long_texts(cx, ON);
        }
        16 => {
            dict_numbers(cx, ON);
            dict_sizes(cx, n(1100, 65535) as u64, ON);
            near_siblings(cx, &[11, 16], ON);
            index_aliases(cx, |f| f.attr == "Code", 40, &[256, 512, 1024], ON);
            twin_codes(cx, ON);
            operand_products(cx, ON);
            code_versions(cx, ON);
            known_words(cx, |_| false, ON);
            many_codes(cx, &[300, 20000], ON);
            code_sequences(cx, 1, ON);
            code_bytes(cx, 2, ON);
            code_operands(cx, t, ON);
            switches(cx, t, ON);
            long_switches(cx, ON);
            many_jumps(cx, ON);
            limits(cx, ON);
            code_sequences(cx, 2, ON);
            families(cx, |f| f.attr == "Code", 2, ON);
            jumps(cx, false, ON);
            scale(cx, &[1, 2, 100, 255, 256, 4000, 32768, 65535], ON);
            code_sequences(cx, 3, ON);
            code_bytes(cx, 3, ON);
        }
        17 => {
            dict_numbers(cx, ON);
            dict_sizes(cx, n(1100, 65535) as u64, ON);
            near_siblings(cx, &[11, 16], ON);
            twin_codes(cx, ON);
            operand_products(cx, ON);
            code_versions(cx, ON);
            many_codes(cx, &[300, 20000], ON);
            jumps(cx, t, ON);
            lookups(cx, n(8, 11));
            switches(cx, t, ON);
            long_switches(cx, ON);
            many_jumps(cx, ON);
            code_bytes(cx, 2, ON);
            code_sequences(cx, 2, ON);
            families(cx, |f| f.attr == "Code", 2, ON);
            code_sequences(cx, 3, ON);
            code_bytes(cx, 3, ON);
        }
        18 => {
            dict_numbers(cx, ON);
            dict_sizes(cx, n(300, 5000) as u64, ON);
            index_aliases(cx, |_| true, k(2, 40), &[256], ON);
            twin_codes(cx, ON);
            near_siblings(cx, &[11, 16, 8, 10], ON);
            twin_contents(cx, |_| true, k(8, 40), k(4, 12), ON);
            relations(cx, 0, ON);
            operand_products(cx, ON);
            code_versions(cx, ON);
            known_classes(cx, ON);
            known_words(cx, |_| true, ON);
            cross_places(cx, |_| true, n(1, 2) as usize, ON);
            late_places(cx, |_| true, &[300], ON);
            many_codes(cx, &[300, 5000], ON);
            attribute_lists(cx, 3, &[64, 300], ON);
            contexts(cx, |_| true, ON);
            varied_lists(cx, |_| true, &[64, 300], false, ON);
            near_duplicates(cx, ON);
            long_lists(cx, |f| f.prop == 11, &[255, 256], k(0, 1), ON);
            families(cx, |f| f.attr == "Code", k(2, 3), ON);
            code_bytes(cx, n(1, 2), ON);
            option_sequences(cx, &whole_seeds()[..k(2, 4)]);
            placements(cx, |_| true, ON);
            bytes_all(cx, "single bytes of whole files", &whole_seeds(), ON);
            families(cx, |_| true, 1, ON);
            jumps(cx, false, ON);
            switches(cx, false, ON);
            truncations(cx, "prefixes and padding", &whole_seeds(), ON);
            code_operands(cx, false, ON);
            bootstrap(cx, false, ON);
            if t {
                member_products(cx, ON);
                code_sequences(cx, 2, ON);
                windows16(cx, "16-bit fields of whole files", &whole_seeds(), ON, &bounds16(300));
                bytes_all(cx, "single bytes", &all_seeds(), ON);
            }
        }
        19 => {
            dict_numbers(cx, ON);
            dict_sizes(cx, n(300, 5000) as u64, ON);
            near_siblings(cx, &[13, 16], ON);
            index_aliases(cx, |f| f.attr == "BootstrapMethods", 40, &[256, 512, 1024, 4096], ON);
            known_words(cx, |_| false, ON);
            cross_places(cx, |f| f.attr == "BootstrapMethods", 4, ON);
            bootstrap(cx, t, ON);
            placements(cx, |f| f.attr == "BootstrapMethods", ON);
            pool_orders(cx, n(2, 3), ON);
            pool_versions(cx, ON);
            bytes_all(cx, "single bytes of whole files", &whole_seeds(), ON);
            families(cx, |f| f.attr == "BootstrapMethods", 2, ON);
        }
        20 => {
            dict_numbers(cx, ON);
            dict_words(cx, ON);
            index_aliases(cx, |_| true, k(6, 40), &[256], ON);
            many_distinct(cx, n(4, 30) as u64, 64000, ON);
            twin_contents(cx, |_| true, k(8, 40), k(2, 12), ON);
            twin_codes(cx, ON);
            twin_descriptors(cx, ON);
            twin_names(cx, 2, ON);
            relations(cx, 0, ON);
            operand_products(cx, ON);
            known_classes(cx, ON);
            known_words(cx, |_| true, ON);
            cross_places(cx, |_| true, 1, ON);
            straddling_texts(cx, &[0, 4], ON);
            late_places(cx, |_| true, &[300], ON);
            many_codes(cx, &[300], ON);
            followed(cx, ON);
            attribute_lists(cx, 2, &[64, 300], ON);
            contexts(cx, |f| f.prop == 13, ON);
            varied_lists(cx, |_| true, &[64], false, ON);
            member_lists(cx, &[9, 300], ON);
            near_duplicates(cx, ON);
            long_names(cx, ON);
            long_descriptors(cx, ON);
            debug_lengths(cx, ON);
            long_texts(cx, ON);
            code_operands(cx, false, ON);
            bootstrap(cx, false, ON);
            name_strings(cx, n(1, 2), ON);
            numbers(cx, ON);
            pool_orders(cx, 2, ON);
            histories(cx, n(3, 5));
            long_histories(cx, if t { &[20, 300, 4000, 66000] } else { &[20, 300, 4000] });
            rewrites(cx, t);
            truncations(cx, "prefixes and padding", &whole_seeds(), ON);
            bytes_all(cx, "single bytes of whole files", &whole_seeds(), ON);
            bytes_all(cx, "single bytes of whole files, no bytecode", &whole_seeds(), OFF);
            families(cx, |_| true, 1, ON);
            pool_graphs(cx, "pools of 2 entries", &[61], 2, t, ON);
            pool_references(cx, &[45, 61], false, ON);
            texts(cx, 1, n(2, 3), ON);
            placements(cx, |_| true, ON);
            code_bytes(cx, n(1, 2), ON);
            members(cx, n(1, 2), ON);
            descriptor_strings(cx, n(2, 3), &(0..DESC_ROLES).collect::<Vec<_>>(), ON);
            name_specials(cx, ON);
            if t {
                bytes_all(cx, "single bytes", &all_seeds(), ON);
                windows16(cx, "16-bit fields of whole files", &whole_seeds(), ON, &bounds16(300));
                families(cx, |_| true, 2, ON);
            }
        }
        _ => panic!("no such property"),
    }
}

/// What the build for threads does itself lies in the constant pool; the rest is the same code.
fn both_builds(cx: &Ctx, prop: u32) {
    families(cx, |f| f.prop == prop || (prop == 19 && f.attr == "BootstrapMethods") || ([16, 17].contains(&prop) && f.attr == "Code"), 1, BOTH);
    if [4, 5, 6, 19].contains(&prop) {
        pool_references(cx, &[45, 61], false, BOTH);
        pool_orders(cx, if cx.thorough { 3 } else { 2 }, BOTH);
        bytes_all(cx, "single bytes of whole files, both builds", &whole_seeds()[if cx.thorough { 0..4 } else { 2..4 }].to_vec(), BOTH);
        texts(cx, 1, 2, BOTH);
    }
    if prop == 4 {
        numbers(cx, BOTH);
    }
    if [4, 5].contains(&prop) {
        pool_chains(cx, BOTH);
        pool_sizes(cx, BOTH);
        pool_graphs(cx, "pools of 2 entries, both builds", &[61], 2, false, BOTH);
    }
}

/// Spaces whose files are otherwise all of one version and kind of class, once more in every version
/// and as other kinds of class.
fn recast(cx: &Ctx, prop: u32) {
    let v = |v: &[u16]| v.iter().map(|v| Cast { version: [*v, if *v == 45 { 3 } else { 0 }], flags: None }).collect::<Vec<_>>();
    let versions: Vec<u16> = (45..=70).collect();
    let mut all = v(&versions);
    for flags in [0x0600, 0x2600, 0x4030, 0x4020, 0x0011, 0x1001, 0x0421, 0x0000] {
        all.extend([50, 61].iter().map(|v| Cast { version: [*v, 0], flags: Some(flags) }));
    }
    let few = v(&[45, 48, 49, 50, 51, 52, 53, 55, 57, 62, 65, 68]);
    let with = |casts: &[Cast], f: &dyn Fn()| {
        *cx.casts.lock().unwrap() = casts.to_vec();
        f();
        cx.casts.lock().unwrap().clear();
    };
    let own = |f: &Family| f.prop == prop;
    match prop {
        1 | 3 | 10 | 18 | 20 => with(if cx.thorough { &all } else { &few }, &|| families(cx, |_| true, 1, ON)),
        4 => with(&all, &|| {
            pool_references(cx, &[61], false, ON);
            pool_orders(cx, 2, ON);
        }),
        5 => with(&all, &|| {
            name_specials(cx, ON);
            descriptor_strings(cx, 2, &[2, 3, 4, 5, 6, 7, 8], ON);
            pool_orders(cx, 2, ON);
        }),
        6 | 7 => with(&all, &|| {
            texts(cx, 1, 2, ON);
            if prop == 7 {
                families(cx, |_| true, 1, ON);
            }
        }),
        8 | 9 => with(&all, &|| {
            member_lists(cx, &[9], ON);
            name_specials(cx, ON);
        }),
        11..=13 => with(&all, &|| families(cx, own, 1, ON)),
        14 => with(&all, &|| {
            descriptor_strings(cx, 2, &(0..DESC_ROLES).collect::<Vec<_>>(), ON);
            descriptor_limits(cx, ON);
        }),
        15 => with(&all, &|| {
            name_specials(cx, ON);
            name_strings(cx, if cx.thorough { 2 } else { 1 }, ON);
        }),
        16 | 17 => with(&all, &|| {
            code_sequences(cx, 1, ON);
            families(cx, |f| f.attr == "Code", 1, ON);
            switches(cx, false, ON);
        }),
        19 => {
            with(&all, &|| {
                families(cx, |f| f.attr == "BootstrapMethods", 1, ON);
                pool_orders(cx, 1, ON);
            });
            let kinds: Vec<Cast> = [51, 55].iter().flat_map(|v| [0x0601, 0x2600, 0x4031, 0].map(|f| Cast { version: [*v, 0], flags: Some(f) })).collect();
            with(&kinds, &|| bootstrap(cx, false, ON));
        }
        _ => (),
    }
}
