"""Independent table of the shipped entity types."""
from mc.ref import FILTH

DUST = ("dust_man", "dust_girl", "dust_kid", "dust_worth", "dust_wraith", "leaf_sprite", "trash_king", "slime_boss")
HITTABLE = frozenset(FILTH) | {"hittable_apple"} | frozenset(DUST)
OTHER = (
    "entity_emitter", "check_point", "level_end_prox", "base_trigger", "fog_trigger", "ambience_trigger",
    "music_trigger", "special_trigger", "text_trigger", "kill_box", "AI_controller", "camera_node", "level_end",
    "score_book", "level_door", "giga_gate", "custom_score_book", "z_string_list",
)
TYPES = tuple(sorted(HITTABLE)) + OTHER
UNKNOWN = ("z_button", "unknown_type", "Check_Point", "enemy_bear2")
