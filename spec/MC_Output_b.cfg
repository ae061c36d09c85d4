SPECIFICATION Spec
INVARIANT Quiet
INVARIANT Noticed
CONSTANT BUGS = {"none", "drop_lco", "drop_dsco", "lco_is_dsco", "second_without_lco", "fixed_attribute", "fixed_name", "fixed_format", "features_by_option", "recreate", "apply_to_all", "late_dsco"}
CONSTANT MAXLEN = 3
CHECK_DEADLOCK FALSE
