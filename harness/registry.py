"""Which driver parts, trace specification and design models decide each property."""
REG = {}


def reg(prop, trace, drivers, models, models_thorough=(), assumptions=()):
    REG[prop] = {"trace": trace, "drivers": list(drivers), "models": list(models),
                 "models_thorough": list(models_thorough), "assumptions": list(assumptions)}


reg("C01", "SlidingWindowTrace", ["lz.sw_small", "lz.sw_random", "lz.sw_random2", "lz.sw_long", "lz.sw_far"], ["MC_SlidingWindow"])
reg("C02", "GrowingDictionaryTrace", ["lz.gd_small", "lz.gd_random", "lz.gd_long", "lz.gd_far"], ["MC_GrowingDictionary"])
reg("C03", "CodesTrace", ["codes.fv_random", "codes.fv_small", "codes.fv_chains", "codes.fv_lengths"], ["MC_Codes"])
reg("C04", "CodesTrace", ["codes.vf_random", "codes.vf_long", "codes.tunstall", "codes.tunstall_deep"], ["MC_Codes"])
reg("C05", "CodesTrace", ["codes.huffman", "codes.huffman_small", "codes.shannon", "codes.fano", "codes.fine", "codes.wide"], ["MC_Codes"])
reg("C06", "IntegerCodesTrace", ["codes.integers"], ["MC_IntegerCodes"])
reg("C07", "ConvTrace", ["conv.conv_random", "conv.conv_long", "conv.conv_wide", "conv.conv_endless", "conv.conv_chunks"], ["MC_Conv", "MC_Chunks"], ["MC_Conv@MC_Conv_thorough"])
reg("C08", "FsmTrace", ["conv.fsm_process"], ["MC_Chunks"])
reg("C09", "FsmTrace", ["conv.fsm_viterbi", "conv.fsm_viterbi_big", "conv.viterbi_witness", "conv.viterbi_decoder"], ["MC_Trellis"], ["MC_Trellis@MC_Trellis_thorough"])
reg("C10", "FsmTrace", ["conv.stream_decoder"], ["MC_Trellis", "MC_Chunks"], ["MC_Trellis@MC_Trellis_thorough"])
reg("C11", "FsmTrace", ["conv.fsm_fb", "conv.fsm_fb_extreme", "conv.fsm_fb_long", "conv.bcjr"], ["MC_Trellis"], ["MC_Trellis@MC_Trellis_thorough"])
reg("C12", "BlockCodeTrace", ["conv.terminated", "conv.terminated_long", "conv.named_terminated"], ["MC_Conv"], ["MC_Conv@MC_Conv_thorough"])
reg("C13", "ConvTrace", ["conv.free_catastrophic", "conv.free_known", "conv.free_large"], ["MC_Free"], ["MC_Free@MC_Free_thorough"])
reg("C14", "BlockCodeTrace", ["block.mapping_general", "block.mapping_large"], ["MC_BlockCodeObject"])
reg("C15", "BlockCodeTrace", ["block.query_histories", "block.query_sizes", "block.query_wide", "block.query_many"], ["MC_LinearCode", "MC_BlockCodeObject", "MC_BlockCodeObject@GEN_BlockCodeObject"],
    ["MC_BlockCodeObject@MC_BlockCodeObject_thorough", "MC_LinearCode@MC_LinearCode_thorough"])
reg("C16", "BlockCodeTrace", ["block.families_a", "block.families_b", "block.families_rm", "block.families_polar", "block.families_lexi", "block.families_bch", "block.families_wide"], ["MC_Families"])
reg("C17", "BlockCodeTrace", ["block.cyclic_small", "block.cyclic_large", "block.cyclic_wide"], ["MC_CyclicMachine"])
reg("C18", "DecoderTrace", ["decoders.nearest", "decoders.soft_ml", "decoders.berlekamp", "decoders.bounded_large", "decoders.reed", "decoders.sc"], ["MC_Decoders"],
    ["MC_Decoders@MC_Decoders_thorough"])
reg("C19", "AlgebraTrace", ["algebra.poly_machine", "algebra.poly_exhaustive", "algebra.poly_tests", "algebra.poly_large", "algebra.poly_huge", "algebra.poly_many", "algebra.poly_orders", "algebra.integers"], ["MC_Euclid"],
    ["MC_Euclid@MC_Euclid_thorough"])
reg("C20", "AlgebraTrace", ["algebra.field_machine", "algebra.field_tables", "algebra.field_large", "algebra.fractions"], ["MC_Euclid"],
    ["MC_Euclid@MC_Euclid_thorough"])
reg("C21", "BitsTrace", ["algebra.bit_conversions", "algebra.bit_exhaustive"], ["MC_BitConv"])
reg("C22", "LabelingTrace", ["mapping.labelings", "mapping.labelings_all", "mapping.labelings_wide"], ["MC_Labelings"])
reg("C23", "ConstellationTrace", ["mapping.constellations", "mapping.const_families", "mapping.const_offset", "mapping.const_large", "mapping.const_rings"], ["MC_Constellations", "MC_Trig"])
reg("C24", "QuantizerTrace", ["quantizers.quantizers", "quantizers.edges", "quantizers.lloyd"], ["MC_Quantizers"])
reg("C25", "SequenceTrace", ["sequences.binary", "sequences.lfsr", "sequences.lfsr_long", "sequences.lfsr_huge", "sequences.walsh_huge", "sequences.walsh", "sequences.zadoff_chu", "sequences.zadoff_chu_long", "sequences.correlations", "sequences.correlations_long"], ["MC_Sequences"])
reg("C26", "MarkovTrace", ["sources.chains", "sources.chains_small", "sources.chain_paths", "sources.chains_leaky", "sources.chains_long", "sources.chains_wide"], ["MC_Markov"], ["MC_Markov@MC_Markov_thorough"])
reg("C27", "ChannelTrace", ["channels.histories", "channels.replays", "channels.laws", "channels.big", "channels.invalid"], ["MC_Channels"])
reg("C28", "InfoTrace", ["info.laws", "info.extremes", "info.channels"], ["MC_Info"], ["MC_Info@MC_Info_thorough"])
reg("C29", "SignalTrace", ["signal_processing.chains", "signal_processing.invalid", "signal_processing.long", "sequences.correlations"], ["MC_Signal", "MC_Sequences"], ["MC_Signal@MC_Signal_thorough"])
reg("C30", "PurityTrace", ["purity.large", "purity.everything", "purity.constructions", "purity.mixed", "purity.histories"],
    ["MC_Purity", "MC_Purity@GEN_Purity"], ["MC_Purity@MC_Purity_thorough"])
reg("C31", "PulseTrace", ["pulses.pulses", "pulses.far", "pulses.domain"], ["MC_Fix", "MC_Pulses"])
reg("C32", "SpecialTrace", ["special.gaussian", "special.marcum", "special.boxplus"], ["MC_Fix", "MC_Special"])
reg("C33", "DomainTrace", ["domains.grid", "domains.wide"], ["MC_Domains"])
