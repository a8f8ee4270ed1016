"""Tiny real models of every supported kind, built by the transformers library:
an oracle for which tensors a model has that is independent of mergekit."""
import copy

V = 24


def _text(**k):
    return {**dict(vocab_size=V, hidden_size=16, intermediate_size=24, num_hidden_layers=2, num_attention_heads=2,
                   num_key_value_heads=2, max_position_embeddings=32, pad_token_id=0, bos_token_id=1, eos_token_id=2), **k}


ATTN = ("attention_bias", [True, False])
MLPB = ("mlp_bias", [True, False])
TIE = ("tie_word_embeddings", [True, False])
GQA = ("num_key_value_heads", [1, 2])
N = ("num_hidden_layers", [1, 2, 3])
MROPE = {"rope_type": "default", "mrope_section": [1, 1, 2]}


def _sub(prefix, *knobs):
    return [(f"{prefix}.{k}", v) for k, v in knobs]


_bert = (_text(), [N, ("type_vocab_size", [1, 2]), ("num_labels", [2, 3])])
_distil = (dict(vocab_size=V, dim=16, hidden_dim=24, n_layers=2, n_heads=2, max_position_embeddings=32), [("n_layers", [1, 2, 3]), ("num_labels", [2, 3])])
_gpt2 = (dict(vocab_size=V, n_embd=16, n_layer=2, n_head=2, n_positions=32, bos_token_id=1, eos_token_id=2, pad_token_id=0), [("n_layer", [1, 2, 3]), ("n_inner", [None, 12])])
_vis = dict(hidden_size=16, intermediate_size=24, num_hidden_layers=3, num_attention_heads=2, image_size=16, patch_size=8)
_moe = dict(num_experts_per_tok=1, head_dim=8)

# arch: (config arguments, [(option, values)])
KNOWN = {
    "ApertusForCausalLM": (_text(), [N, ATTN, TIE]),
    "ArceeForCausalLM": (_text(), [N, ATTN, MLPB, TIE]),
    "AfmoeForCausalLM": (_text(**_moe, num_experts=2, num_dense_layers=1, num_shared_experts=1, moe_intermediate_size=8, layer_types=None),
                         [("num_hidden_layers", [2, 3]), ("num_experts", [2, 3]), ATTN, TIE, ("num_shared_experts", [1, 2]), ("num_dense_layers", [1, 2])]),
    "BertForMaskedLM": (_bert[0], _bert[1] + [TIE]),
    "BertForMultipleChoice": _bert,
    "BertForSequenceClassification": _bert,
    "BertForTokenClassification": _bert,
    "BertModel": _bert,
    "Cohere2ForCausalLM": (_text(), [N, ATTN]),
    "CohereForCausalLM": (_text(), [N, ATTN, ("use_qk_norm", [True, False])]),
    "DistilBertForMaskedLM": (_distil[0], _distil[1] + [TIE]),
    "DistilBertForSequenceClassification": _distil,
    "DistilBertForTokenClassification": _distil,
    "DistilBertModel": _distil,
    "FalconForCausalLM": (dict(vocab_size=V, hidden_size=16, num_hidden_layers=2, num_attention_heads=2, num_kv_heads=2, bos_token_id=1, eos_token_id=2),
                          [N, ("new_decoder_architecture", [True, False]), ("parallel_attn", [True, False]), ("bias", [True, False]),
                           ("multi_query", [True, False]), ("alibi", [True, False]), TIE, ("num_ln_in_parallel_attn", [None, 1, 2])]),
    "GPT2ForSequenceClassification": (_gpt2[0], _gpt2[1] + [("num_labels", [2, 3])]),
    "GPT2LMHeadModel": (_gpt2[0], _gpt2[1] + [TIE]),
    "GPTBigCodeForCausalLM": (_gpt2[0], _gpt2[1] + [TIE, ("multi_query", [True, False])]),
    "GPTNeoXForCausalLM": (_text(), [N, ATTN, TIE, ("use_parallel_residual", [True, False])]),
    "Gemma2ForCausalLM": (_text(head_dim=8), [N, ATTN, TIE]),
    "Gemma3ForCausalLM": (_text(head_dim=8), [N, ATTN, TIE]),
    "GemmaForCausalLM": (_text(head_dim=8), [N, ATTN, TIE]),
    "Gemma3ForConditionalGeneration": (dict(text_config=_text(head_dim=8), vision_config={**_vis, "vision_use_head": False}, mm_tokens_per_image=4),
                                       [TIE] + _sub("text_config", N, ATTN) + _sub("vision_config", ("num_hidden_layers", [1, 3]))),
    "Glm4ForCausalLM": (_text(head_dim=8), [N, ATTN, TIE]),
    "Glm4MoeForCausalLM": (_text(**_moe, n_routed_experts=2, first_k_dense_replace=1, moe_intermediate_size=8, n_shared_experts=1, n_group=1, topk_group=1),
                           [("num_hidden_layers", [2, 3]), ("n_routed_experts", [2, 3]), ("first_k_dense_replace", [0, 1, 2]), ATTN, ("use_qk_norm", [True, False]), TIE]),
    "GraniteForCausalLM": (_text(), [N, ATTN, MLPB, TIE]),
    "GraniteMoeHybridForCausalLM": (_text(num_local_experts=2, num_experts_per_tok=1, shared_intermediate_size=12, layer_types=["mamba", "attention"],
                                          mamba_n_heads=4, mamba_d_head=8, mamba_d_state=4, mamba_n_groups=1, mamba_expand=2),
                                    [ATTN, TIE, ("num_local_experts", [0, 2, 3]), ("layer_types", [["mamba", "attention"], ["attention", "mamba"], ["mamba", "mamba"]]),
                                     ("mamba_conv_bias", [True, False]), ("mamba_proj_bias", [True, False])]),
    "Lfm2ForCausalLM": (_text(layer_types=["conv", "full_attention"], block_multiple_of=4),
                        [TIE, ("conv_bias", [True, False]), ("layer_types", [["conv", "full_attention"], ["full_attention", "conv"], ["conv", "conv"]])]),
    "Llama4ForConditionalGeneration": (dict(text_config=_text(intermediate_size_mlp=24, num_local_experts=2, num_experts_per_tok=1, interleave_moe_layer_step=1, head_dim=8),
                                            vision_config={**_vis, "intermediate_size": 64, "vision_output_dim": 16, "projector_input_dim": 16, "projector_output_dim": 16}),
                                       [TIE] + _sub("text_config", N, ATTN, ("interleave_moe_layer_step", [1, 2]), ("num_local_experts", [2, 3])) + _sub("vision_config", ("num_hidden_layers", [1, 3]))),
    "LlamaForCausalLM": (_text(), [N, ATTN, MLPB, TIE, GQA]),
    "LlamaForSequenceClassification": (_text(), [N, ATTN, MLPB, GQA, ("num_labels", [2, 3])]),
    "MambaForCausalLM": (dict(vocab_size=V, hidden_size=16, state_size=4, num_hidden_layers=2, time_step_rank=2, intermediate_size=32),
                         [N, TIE, ("use_bias", [True, False]), ("use_conv_bias", [True, False])]),
    "Mistral3ForConditionalGeneration": (dict(text_config=dict(model_type="mistral", **_text(head_dim=8)), vision_config=dict(model_type="pixtral", **_vis)),
                                         [TIE, ("multimodal_projector_bias", [True, False])] + _sub("text_config", N) + _sub("vision_config", ("num_hidden_layers", [1, 3]))),
    "MistralForCausalLM": (_text(), [N, TIE, GQA]),
    "MixtralForCausalLM": (_text(num_local_experts=2, num_experts_per_tok=1), [N, TIE, ("num_local_experts", [2, 3, 11])]),
    "Olmo2ForCausalLM": (_text(), [N, ATTN, TIE]),
    "Phi3ForCausalLM": (_text(), [N, TIE, GQA]),
    "PhiForCausalLM": (_text(), [N, TIE, GQA, ("qk_layernorm", [True, False])]),
    "Qwen2ForCausalLM": (_text(), [N, TIE, GQA]),
    "Qwen2VLForConditionalGeneration": (dict(text_config=_text(rope_parameters=MROPE), vision_config=dict(depth=3, embed_dim=16, hidden_size=16, num_heads=2, mlp_ratio=2, patch_size=4),
                                             image_token_id=5, video_token_id=6, vision_start_token_id=7, vision_end_token_id=8),
                                        [TIE] + _sub("text_config", N) + _sub("vision_config", ("depth", [1, 2, 3]))),
    "Qwen2_5_VLForConditionalGeneration": (dict(text_config=_text(rope_parameters=MROPE),
                                                vision_config=dict(depth=3, hidden_size=16, intermediate_size=24, num_heads=2, out_hidden_size=16, patch_size=4, fullatt_block_indexes=[1])),
                                           [TIE] + _sub("text_config", N) + _sub("vision_config", ("depth", [1, 2, 3]))),
    "Qwen3ForCausalLM": (_text(head_dim=8), [N, ATTN, TIE]),
    "Qwen3MoeForCausalLM": (_text(**_moe, num_experts=2, moe_intermediate_size=8, mlp_only_layers=[], decoder_sparse_step=1),
                            [N, ATTN, TIE, ("num_experts", [2, 3, 11]), ("mlp_only_layers", [[], [0], [1]]), ("decoder_sparse_step", [1, 2])]),
    "Qwen3VLForConditionalGeneration": (dict(text_config=_text(head_dim=8, rope_parameters=MROPE),
                                             vision_config=dict(depth=3, hidden_size=16, intermediate_size=24, num_heads=2, out_hidden_size=16, patch_size=4, deepstack_visual_indexes=[0, 1, 2], num_position_embeddings=16)),
                                        [TIE] + _sub("text_config", N, ATTN) + _sub("vision_config", ("depth", [3, 4]), ("deepstack_visual_indexes", [[0, 1, 2], [2, 0, 1]]))),
    "Qwen3VLMoeForConditionalGeneration": (dict(text_config=_text(**_moe, num_experts=2, moe_intermediate_size=8, rope_parameters=MROPE),
                                                vision_config=dict(depth=3, hidden_size=16, intermediate_size=24, num_heads=2, out_hidden_size=16, patch_size=4, deepstack_visual_indexes=[0, 1, 2], num_position_embeddings=16)),
                                           [TIE] + _sub("text_config", N, ATTN) + _sub("vision_config", ("depth", [3, 4]))),
    "RobertaForMaskedLM": (_bert[0], _bert[1] + [TIE]),
    "RobertaForSequenceClassification": _bert,
    "RobertaForTokenClassification": _bert,
    "RobertaModel": _bert,
    "StableLmForCausalLM": (_text(), [N, TIE, GQA, ("use_qkv_bias", [True, False]), ("qk_layernorm", [True, False]), ("use_parallel_residual", [True, False])]),
    "Starcoder2ForCausalLM": (_text(), [N, TIE, GQA, ("use_bias", [True, False])]),
    "T5ForConditionalGeneration": (dict(vocab_size=V, d_model=16, d_kv=8, d_ff=24, num_layers=2, num_decoder_layers=3, num_heads=2, decoder_start_token_id=0),
                                   [("num_layers", [1, 2, 3]), ("num_decoder_layers", [1, 2, 3]), ("feed_forward_proj", ["relu", "gated-gelu"]), TIE]),
    "WhisperForConditionalGeneration": (dict(vocab_size=V, d_model=16, encoder_layers=2, decoder_layers=3, encoder_attention_heads=2, decoder_attention_heads=2, encoder_ffn_dim=24, decoder_ffn_dim=24,
                                             num_mel_bins=8, max_source_positions=16, max_target_positions=16, pad_token_id=0, bos_token_id=1, eos_token_id=2, decoder_start_token_id=1),
                                        [("encoder_layers", [1, 2, 3]), ("decoder_layers", [1, 2, 3]), TIE]),
}

# kinds without a definition of their own, whose architecture is inferred
OTHER = {
    "OPTForCausalLM": (dict(vocab_size=V, hidden_size=16, ffn_dim=24, num_hidden_layers=2, num_attention_heads=2, max_position_embeddings=32, word_embed_proj_dim=16),
                       [N, TIE, ("word_embed_proj_dim", [16, 8]), ("do_layer_norm_before", [True, False])]),
    "BloomForCausalLM": (dict(vocab_size=V, hidden_size=16, n_layer=2, n_head=2), [("n_layer", [1, 2, 3]), TIE]),
    "GPTJForCausalLM": (dict(vocab_size=V, n_embd=16, n_layer=2, n_head=2, n_positions=32, rotary_dim=4), [("n_layer", [1, 2, 3]), TIE]),
    "GPTNeoForCausalLM": (dict(vocab_size=V, hidden_size=16, num_layers=2, num_heads=2, attention_types=[[["global", "local"], 1]], max_position_embeddings=32), [TIE]),
    "OlmoForCausalLM": (_text(), [N, TIE, ATTN]),
    "OlmoeForCausalLM": (_text(num_experts=2, num_experts_per_tok=1), [N, TIE, ATTN, ("num_experts", [2, 3])]),
    "Qwen2MoeForCausalLM": (_text(num_experts=2, num_experts_per_tok=1, moe_intermediate_size=8, shared_expert_intermediate_size=12), [N, TIE, ("num_experts", [2, 3])]),
    "MptForCausalLM": (dict(vocab_size=V, d_model=16, n_layers=2, n_heads=2, max_seq_len=32, expansion_ratio=2), [("n_layers", [1, 2, 3]), TIE]),
    "PersimmonForCausalLM": (_text(), [N, TIE, ("qk_layernorm", [True, False])]),
    "SmolLM3ForCausalLM": (_text(), [N, TIE, ATTN, MLPB]),
    "NemotronForCausalLM": (_text(), [N, TIE, ATTN, MLPB]),
    "CodeGenForCausalLM": (dict(vocab_size=V, n_embd=16, n_layer=2, n_head=4, n_positions=32, rotary_dim=4), [("n_layer", [1, 2, 3])]),
    "ElectraForMaskedLM": (_text(embedding_size=8), [N, TIE, ("embedding_size", [8, 16])]),
    "AlbertForMaskedLM": (_text(embedding_size=8, num_hidden_groups=1), [N, TIE, ("num_hidden_groups", [1])]),
    "BartForConditionalGeneration": (dict(vocab_size=V, d_model=16, encoder_layers=2, decoder_layers=3, encoder_attention_heads=2, decoder_attention_heads=2, encoder_ffn_dim=24, decoder_ffn_dim=24,
                                          max_position_embeddings=32, pad_token_id=0, bos_token_id=1, eos_token_id=2, decoder_start_token_id=2), [("encoder_layers", [1, 2, 3]), ("decoder_layers", [1, 2, 3]), TIE]),
    "ViTForImageClassification": (dict(hidden_size=16, intermediate_size=24, num_hidden_layers=2, num_attention_heads=2, image_size=16, patch_size=8), [N, ("num_labels", [2, 3])]),
    "LlamaForTokenClassification": (_text(), [N, ATTN, ("num_labels", [2, 3])]),
    "Mamba2ForCausalLM": (dict(vocab_size=V, hidden_size=16, state_size=4, num_hidden_layers=2, num_heads=4, head_dim=8, expand=2, n_groups=1), [N, TIE, ("use_bias", [True, False]), ("use_conv_bias", [True, False])]),
    "XLMRobertaForSequenceClassification": _bert,
    "DebertaV2ForSequenceClassification": (_text(relative_attention=True, pos_att_type=["p2c", "c2p"], position_buckets=4, type_vocab_size=0), [N, ("num_labels", [2, 3])]),
    "Olmo3ForCausalLM": (_text(), [N, TIE, ATTN]),
    "DeepseekV3ForCausalLM": (_text(n_routed_experts=2, num_experts_per_tok=1, n_group=1, topk_group=1, first_k_dense_replace=1, moe_intermediate_size=8, kv_lora_rank=8, q_lora_rank=8,
                                    qk_rope_head_dim=4, v_head_dim=8, qk_nope_head_dim=4, n_shared_experts=1), [("num_hidden_layers", [1, 2, 3]), TIE, ("n_routed_experts", [2, 3]), ("q_lora_rank", [8, None])]),
    "PhimoeForCausalLM": (_text(num_local_experts=2, num_experts_per_tok=2), [N, TIE, ATTN]),
    "GraniteMoeForCausalLM": (_text(num_local_experts=2, num_experts_per_tok=1), [N, TIE, ATTN]),
    "JambaForCausalLM": (_text(num_experts=2, num_experts_per_tok=1, attn_layer_period=2, attn_layer_offset=1, expert_layer_period=2, expert_layer_offset=1, mamba_d_state=4, mamba_dt_rank=2, use_mamba_kernels=False), [N, TIE]),
    "GptOssForCausalLM": (_text(num_local_experts=2, num_experts_per_tok=1, head_dim=8), [N, TIE]),
    "LlavaForConditionalGeneration": (dict(text_config=dict(model_type="llama", **_text()), vision_config=dict(model_type="clip_vision_model", projection_dim=8, **_vis), image_token_index=5), [TIE] + _sub("text_config", N, ATTN)),
    "PaliGemmaForConditionalGeneration": (dict(text_config=dict(model_type="gemma", **_text(head_dim=8)), vision_config=dict(model_type="siglip_vision_model", vision_use_head=False, **_vis), projection_dim=16, image_token_index=5), [TIE]),
    "InternVLForConditionalGeneration": (dict(text_config=dict(model_type="qwen2", **_text()), vision_config=dict(hidden_size=16, intermediate_size=24, num_hidden_layers=3, num_attention_heads=2, image_size=[16, 16], patch_size=[8, 8]), image_token_id=5), [TIE]),
    "CLIPModel": (dict(text_config=dict(vocab_size=V, hidden_size=16, intermediate_size=24, num_hidden_layers=2, num_attention_heads=2, max_position_embeddings=16, projection_dim=8, pad_token_id=0, bos_token_id=1, eos_token_id=2), vision_config=dict(projection_dim=8, **_vis), projection_dim=8), []),
    "XGLMForCausalLM": (dict(vocab_size=V, d_model=16, ffn_dim=24, num_layers=2, attention_heads=2, max_position_embeddings=32), [("num_layers", [1, 2, 3]), TIE]),
    "BertForQuestionAnswering": _bert,
    "BertForPreTraining": (_bert[0], _bert[1]),
    "GPT2Model": _gpt2,
    "GPT2ForTokenClassification": _gpt2,
    "LlamaModel": (_text(), [N, ATTN]),
    "MistralForSequenceClassification": (_text(), [N]),
    "Qwen2ForSequenceClassification": (_text(), [N]),
    "T5EncoderModel": (dict(vocab_size=V, d_model=16, d_kv=8, d_ff=24, num_layers=2, num_heads=2), [("num_layers", [1, 2])]),
    "Llama4ForCausalLM": (_text(intermediate_size_mlp=24, num_local_experts=2, num_experts_per_tok=1, interleave_moe_layer_step=1, head_dim=8), [N, TIE]),
    "Gemma3nForCausalLM": (_text(head_dim=8, vocab_size_per_layer_input=V, hidden_size_per_layer_input=4, num_kv_shared_layers=0, layer_types=["sliding_attention", "full_attention"], activation_sparsity_pattern=[0.0, 0.0], laurel_rank=4), [TIE]),
    "Lfm2MoeForCausalLM": (_text(num_experts=2, num_experts_per_tok=1, moe_intermediate_size=8, num_dense_layers=1, layer_types=["conv", "full_attention"]), [TIE]),
    "Qwen3NextForCausalLM": (_text(num_experts=2, num_experts_per_tok=1, moe_intermediate_size=8, shared_expert_intermediate_size=8, head_dim=8, linear_num_key_heads=2, linear_num_value_heads=2, linear_key_head_dim=4, linear_value_head_dim=4, layer_types=["linear_attention", "full_attention"]), [TIE]),
    "Ernie4_5_MoeForCausalLM": (_text(moe_num_experts=2, moe_k=1, moe_intermediate_size=8, moe_layer_start_index=1, moe_num_shared_experts=1), [N, TIE]),
    "BambaForCausalLM": (_text(mamba_n_heads=4, mamba_d_head=8, mamba_d_state=4, attn_layer_indices=[1]), [TIE]),
    "FalconMambaForCausalLM": (dict(vocab_size=V, hidden_size=16, state_size=4, num_hidden_layers=2, time_step_rank=2, intermediate_size=32), [N, TIE]),
    "RwkvForCausalLM": (dict(vocab_size=V, hidden_size=16, num_hidden_layers=2, attention_hidden_size=16, intermediate_size=24), [("num_hidden_layers", [2, 3]), TIE]),
    "ModernBertForMaskedLM": (_text(num_hidden_layers=3, cls_token_id=1, sep_token_id=2), [TIE]),
    "SiglipModel": (dict(text_config=dict(vocab_size=V, hidden_size=16, intermediate_size=24, num_hidden_layers=2, num_attention_heads=2, max_position_embeddings=16, projection_size=16), vision_config=_vis), []),
}



def arguments(arch, options):
    kw = copy.deepcopy((KNOWN.get(arch) or OTHER[arch])[0])
    for path, value in options.items():
        t = kw
        *head, last = path.split(".")
        for h in head:
            t = t[h]
        t[last] = copy.deepcopy(value)
    return kw


def config(arch, options):
    import transformers

    cls = getattr(transformers, arch)
    kw = arguments(arch, options)
    if arch in ("Lfm2ForCausalLM", "GraniteMoeHybridForCausalLM"):
        kw["num_hidden_layers"] = len(kw["layer_types"])
    cfg = cls.config_class(**kw)
    cfg.architectures = [arch]
    return cls, cfg


def build(arch, options, seed):
    """A real model whose every parameter is random."""
    import torch

    cls, cfg = config(arch, options)
    with torch.random.fork_rng():
        torch.manual_seed(seed)
        model = cls(cfg)
        g = torch.Generator().manual_seed(seed)
        with torch.no_grad():
            for _n, p in sorted(model.named_parameters()):
                p.copy_(torch.randn(p.shape, generator=g))
            for n, b in sorted(model.named_buffers()):
                if n in model.state_dict() and b.is_floating_point():
                    b.copy_(torch.randn(b.shape, generator=g))
    return model.eval()
