## align_and_resample::align_and_resample
[accepts]
    Eq(height(list(elem(lazy(agg(group_by_dynamic(lazy(list(elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true)))) if (gt_eq(col(p2), lit(new(from_ymd_opt(year(first(p3.timesteps).date), month(first(p3.timesteps).date), day(first(p3.timesteps).date)), from_hms_opt(hour(first(p3.timesteps).date), minute(first(p3.timesteps).date), second(first(p3.timesteps).date))))), elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true))))))), col(p2), (), DynamicGroupOptions{closed_window: default().closed_window, every: parse(duration_string(first(p3.timesteps).duration)), include_boundaries: default().include_boundaries, index_column: default().index_column, label: default().label, offset: parse("0d"), period: parse(duration_string(first(p3.timesteps).duration)), start_by: DataPoint}), (mean(as_expr(exclude_cols(all(), (p2)))))))) if (gt_eq(col(p2), lit(new(from_ymd_opt(year(first(p3.timesteps).date), month(first(p3.timesteps).date), day(first(p3.timesteps).date)), from_hms_opt(hour(first(p3.timesteps).date), minute(first(p3.timesteps).date), second(first(p3.timesteps).date))))), elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true))))) & (lt_eq(col(p2), lit(new(from_ymd_opt(year(last(p3.timesteps).date), month(last(p3.timesteps).date), day(last(p3.timesteps).date)), from_hms_opt(hour(last(p3.timesteps).date), minute(last(p3.timesteps).date), second(last(p3.timesteps).date))))), elem(lazy(agg(group_by_dynamic(lazy(list(elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true)))) if (gt_eq(col(p2), lit(new(from_ymd_opt(year(first(p3.timesteps).date), month(first(p3.timesteps).date), day(first(p3.timesteps).date)), from_hms_opt(hour(first(p3.timesteps).date), minute(first(p3.timesteps).date), second(first(p3.timesteps).date))))), elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true))))))), col(p2), (), DynamicGroupOptions{closed_window: default().closed_window, every: parse(duration_string(first(p3.timesteps).duration)), include_boundaries: default().include_boundaries, index_column: default().index_column, label: default().label, offset: parse("0d"), period: parse(duration_string(first(p3.timesteps).duration)), start_by: DataPoint}), (mean(as_expr(exclude_cols(all(), (p2))))))))))), len(p3.timesteps)); cmp(as_millis(first(p3.timesteps).duration.0), get(physical(duration(column(select(lazy(list(elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true)))) if (gt_eq(col(p2), lit(new(from_ymd_opt(year(first(p3.timesteps).date), month(first(p3.timesteps).date), day(first(p3.timesteps).date)), from_hms_opt(hour(first(p3.timesteps).date), minute(first(p3.timesteps).date), second(first(p3.timesteps).date))))), elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true))))))), (alias(unique(diff(col(p2), 1, Drop)), "duration"))), "duration"))), 0)) is 1
    Eq(height(list(elem(lazy(fill_null(upsample(list(elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true)))) if (gt_eq(col(p2), lit(new(from_ymd_opt(year(first(p3.timesteps).date), month(first(p3.timesteps).date), day(first(p3.timesteps).date)), from_hms_opt(hour(first(p3.timesteps).date), minute(first(p3.timesteps).date), second(first(p3.timesteps).date))))), elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true)))))), (), p2, parse(duration_string(first(p3.timesteps).duration))), Forward{0: none}))) if (gt_eq(col(p2), lit(new(from_ymd_opt(year(first(p3.timesteps).date), month(first(p3.timesteps).date), day(first(p3.timesteps).date)), from_hms_opt(hour(first(p3.timesteps).date), minute(first(p3.timesteps).date), second(first(p3.timesteps).date))))), elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true))))) & (lt_eq(col(p2), lit(new(from_ymd_opt(year(last(p3.timesteps).date), month(last(p3.timesteps).date), day(last(p3.timesteps).date)), from_hms_opt(hour(last(p3.timesteps).date), minute(last(p3.timesteps).date), second(last(p3.timesteps).date))))), elem(lazy(fill_null(upsample(list(elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true)))) if (gt_eq(col(p2), lit(new(from_ymd_opt(year(first(p3.timesteps).date), month(first(p3.timesteps).date), day(first(p3.timesteps).date)), from_hms_opt(hour(first(p3.timesteps).date), minute(first(p3.timesteps).date), second(first(p3.timesteps).date))))), elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true)))))), (), p2, parse(duration_string(first(p3.timesteps).duration))), Forward{0: none})))))), len(p3.timesteps)); cmp(as_millis(first(p3.timesteps).duration.0), get(physical(duration(column(select(lazy(list(elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true)))) if (gt_eq(col(p2), lit(new(from_ymd_opt(year(first(p3.timesteps).date), month(first(p3.timesteps).date), day(first(p3.timesteps).date)), from_hms_opt(hour(first(p3.timesteps).date), minute(first(p3.timesteps).date), second(first(p3.timesteps).date))))), elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true))))))), (alias(unique(diff(col(p2), 1, Drop)), "duration"))), "duration"))), 0)) is 255
    Eq(height(list(elem(lazy(list(elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true)))) if (gt_eq(col(p2), lit(new(from_ymd_opt(year(first(p3.timesteps).date), month(first(p3.timesteps).date), day(first(p3.timesteps).date)), from_hms_opt(hour(first(p3.timesteps).date), minute(first(p3.timesteps).date), second(first(p3.timesteps).date))))), elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true)))))))) if (gt_eq(col(p2), lit(new(from_ymd_opt(year(first(p3.timesteps).date), month(first(p3.timesteps).date), day(first(p3.timesteps).date)), from_hms_opt(hour(first(p3.timesteps).date), minute(first(p3.timesteps).date), second(first(p3.timesteps).date))))), elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true))))) & (lt_eq(col(p2), lit(new(from_ymd_opt(year(last(p3.timesteps).date), month(last(p3.timesteps).date), day(last(p3.timesteps).date)), from_hms_opt(hour(last(p3.timesteps).date), minute(last(p3.timesteps).date), second(last(p3.timesteps).date))))), elem(lazy(list(elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true)))) if (gt_eq(col(p2), lit(new(from_ymd_opt(year(first(p3.timesteps).date), month(first(p3.timesteps).date), day(first(p3.timesteps).date)), from_hms_opt(hour(first(p3.timesteps).date), minute(first(p3.timesteps).date), second(first(p3.timesteps).date))))), elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true))))))))))), len(p3.timesteps)); cmp(as_millis(first(p3.timesteps).duration.0), get(physical(duration(column(select(lazy(list(elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true)))) if (gt_eq(col(p2), lit(new(from_ymd_opt(year(first(p3.timesteps).date), month(first(p3.timesteps).date), day(first(p3.timesteps).date)), from_hms_opt(hour(first(p3.timesteps).date), minute(first(p3.timesteps).date), second(first(p3.timesteps).date))))), elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true))))))), (alias(unique(diff(col(p2), 1, Drop)), "duration"))), "duration"))), 0)) is 0
drop_in_place(list(elem(lazy(agg(group_by_dynamic(lazy(list(elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true)))) if ?(gt_eq(col(p2), lit(new(from_ymd_opt(year(first(p3.timesteps).date), month(first(p3.timesteps).date), day(first(p3.timesteps).date)), from_hms_opt(hour(first(p3.timesteps).date), minute(first(p3.timesteps).date), second(first(p3.timesteps).date))))), elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true))))))), col(p2), (), DynamicGroupOptions{closed_window: default().closed_window, every: parse(duration_string(first(p3.timesteps).duration)), include_boundaries: default().include_boundaries, index_column: default().index_column, label: default().label, offset: parse("0d"), period: parse(duration_string(first(p3.timesteps).duration)), start_by: DataPoint}), (mean(as_expr(exclude_cols(all(), (p2)))))))) if ?(gt_eq(col(p2), lit(new(from_ymd_opt(year(first(p3.timesteps).date), month(first(p3.timesteps).date), day(first(p3.timesteps).date)), from_hms_opt(hour(first(p3.timesteps).date), minute(first(p3.timesteps).date), second(first(p3.timesteps).date))))), elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true))))) & ?(lt_eq(col(p2), lit(new(from_ymd_opt(year(last(p3.timesteps).date), month(last(p3.timesteps).date), day(last(p3.timesteps).date)), from_hms_opt(hour(last(p3.timesteps).date), minute(last(p3.timesteps).date), second(last(p3.timesteps).date))))), elem(lazy(agg(group_by_dynamic(lazy(list(elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true)))) if ?(gt_eq(col(p2), lit(new(from_ymd_opt(year(first(p3.timesteps).date), month(first(p3.timesteps).date), day(first(p3.timesteps).date)), from_hms_opt(hour(first(p3.timesteps).date), minute(first(p3.timesteps).date), second(first(p3.timesteps).date))))), elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true))))))), col(p2), (), DynamicGroupOptions{closed_window: default().closed_window, every: parse(duration_string(first(p3.timesteps).duration)), include_boundaries: default().include_boundaries, index_column: default().index_column, label: default().label, offset: parse("0d"), period: parse(duration_string(first(p3.timesteps).duration)), start_by: DataPoint}), (mean(as_expr(exclude_cols(all(), (p2)))))))))), p2)
    cmp(as_millis(first(p3.timesteps).duration.0), get(physical(duration(column(select(lazy(list(elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true)))) if ?(gt_eq(col(p2), lit(new(from_ymd_opt(year(first(p3.timesteps).date), month(first(p3.timesteps).date), day(first(p3.timesteps).date)), from_hms_opt(hour(first(p3.timesteps).date), minute(first(p3.timesteps).date), second(first(p3.timesteps).date))))), elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true))))))), (alias(unique(diff(col(p2), 1, Drop)), "duration"))), "duration"))), 0)) is 1; p4
drop_in_place(list(elem(lazy(fill_null(upsample(list(elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true)))) if ?(gt_eq(col(p2), lit(new(from_ymd_opt(year(first(p3.timesteps).date), month(first(p3.timesteps).date), day(first(p3.timesteps).date)), from_hms_opt(hour(first(p3.timesteps).date), minute(first(p3.timesteps).date), second(first(p3.timesteps).date))))), elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true)))))), (), p2, parse(duration_string(first(p3.timesteps).duration))), Forward{0: none}))) if ?(gt_eq(col(p2), lit(new(from_ymd_opt(year(first(p3.timesteps).date), month(first(p3.timesteps).date), day(first(p3.timesteps).date)), from_hms_opt(hour(first(p3.timesteps).date), minute(first(p3.timesteps).date), second(first(p3.timesteps).date))))), elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true))))) & ?(lt_eq(col(p2), lit(new(from_ymd_opt(year(last(p3.timesteps).date), month(last(p3.timesteps).date), day(last(p3.timesteps).date)), from_hms_opt(hour(last(p3.timesteps).date), minute(last(p3.timesteps).date), second(last(p3.timesteps).date))))), elem(lazy(fill_null(upsample(list(elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true)))) if ?(gt_eq(col(p2), lit(new(from_ymd_opt(year(first(p3.timesteps).date), month(first(p3.timesteps).date), day(first(p3.timesteps).date)), from_hms_opt(hour(first(p3.timesteps).date), minute(first(p3.timesteps).date), second(first(p3.timesteps).date))))), elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true)))))), (), p2, parse(duration_string(first(p3.timesteps).duration))), Forward{0: none}))))), p2)
    cmp(as_millis(first(p3.timesteps).duration.0), get(physical(duration(column(select(lazy(list(elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true)))) if ?(gt_eq(col(p2), lit(new(from_ymd_opt(year(first(p3.timesteps).date), month(first(p3.timesteps).date), day(first(p3.timesteps).date)), from_hms_opt(hour(first(p3.timesteps).date), minute(first(p3.timesteps).date), second(first(p3.timesteps).date))))), elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true))))))), (alias(unique(diff(col(p2), 1, Drop)), "duration"))), "duration"))), 0)) is 255; p4
drop_in_place(list(elem(lazy(list(elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true)))) if ?(gt_eq(col(p2), lit(new(from_ymd_opt(year(first(p3.timesteps).date), month(first(p3.timesteps).date), day(first(p3.timesteps).date)), from_hms_opt(hour(first(p3.timesteps).date), minute(first(p3.timesteps).date), second(first(p3.timesteps).date))))), elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true)))))))) if ?(gt_eq(col(p2), lit(new(from_ymd_opt(year(first(p3.timesteps).date), month(first(p3.timesteps).date), day(first(p3.timesteps).date)), from_hms_opt(hour(first(p3.timesteps).date), minute(first(p3.timesteps).date), second(first(p3.timesteps).date))))), elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true))))) & ?(lt_eq(col(p2), lit(new(from_ymd_opt(year(last(p3.timesteps).date), month(last(p3.timesteps).date), day(last(p3.timesteps).date)), from_hms_opt(hour(last(p3.timesteps).date), minute(last(p3.timesteps).date), second(last(p3.timesteps).date))))), elem(lazy(list(elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true)))) if ?(gt_eq(col(p2), lit(new(from_ymd_opt(year(first(p3.timesteps).date), month(first(p3.timesteps).date), day(first(p3.timesteps).date)), from_hms_opt(hour(first(p3.timesteps).date), minute(first(p3.timesteps).date), second(first(p3.timesteps).date))))), elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true)))))))))), p2)
    cmp(as_millis(first(p3.timesteps).duration.0), get(physical(duration(column(select(lazy(list(elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true)))) if ?(gt_eq(col(p2), lit(new(from_ymd_opt(year(first(p3.timesteps).date), month(first(p3.timesteps).date), day(first(p3.timesteps).date)), from_hms_opt(hour(first(p3.timesteps).date), minute(first(p3.timesteps).date), second(first(p3.timesteps).date))))), elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true))))))), (alias(unique(diff(col(p2), 1, Drop)), "duration"))), "duration"))), 0)) is 0; p4
return list
return[] elem(lazy(agg(group_by_dynamic(lazy(list(elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true)))) if ?(gt_eq(col(p2), lit(new(from_ymd_opt(year(first(p3.timesteps).date), month(first(p3.timesteps).date), day(first(p3.timesteps).date)), from_hms_opt(hour(first(p3.timesteps).date), minute(first(p3.timesteps).date), second(first(p3.timesteps).date))))), elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true))))))), col(p2), (), DynamicGroupOptions{closed_window: default().closed_window, every: parse(duration_string(first(p3.timesteps).duration)), include_boundaries: default().include_boundaries, index_column: default().index_column, label: default().label, offset: parse("0d"), period: parse(duration_string(first(p3.timesteps).duration)), start_by: DataPoint}), (mean(as_expr(exclude_cols(all(), (p2))))))))
    ?(gt_eq(col(p2), lit(new(from_ymd_opt(year(first(p3.timesteps).date), month(first(p3.timesteps).date), day(first(p3.timesteps).date)), from_hms_opt(hour(first(p3.timesteps).date), minute(first(p3.timesteps).date), second(first(p3.timesteps).date))))), elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true))))); ?(lt_eq(col(p2), lit(new(from_ymd_opt(year(last(p3.timesteps).date), month(last(p3.timesteps).date), day(last(p3.timesteps).date)), from_hms_opt(hour(last(p3.timesteps).date), minute(last(p3.timesteps).date), second(last(p3.timesteps).date))))), elem(lazy(agg(group_by_dynamic(lazy(list(elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true)))) if ?(gt_eq(col(p2), lit(new(from_ymd_opt(year(first(p3.timesteps).date), month(first(p3.timesteps).date), day(first(p3.timesteps).date)), from_hms_opt(hour(first(p3.timesteps).date), minute(first(p3.timesteps).date), second(first(p3.timesteps).date))))), elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true))))))), col(p2), (), DynamicGroupOptions{closed_window: default().closed_window, every: parse(duration_string(first(p3.timesteps).duration)), include_boundaries: default().include_boundaries, index_column: default().index_column, label: default().label, offset: parse("0d"), period: parse(duration_string(first(p3.timesteps).duration)), start_by: DataPoint}), (mean(as_expr(exclude_cols(all(), (p2))))))))); cmp(as_millis(first(p3.timesteps).duration.0), get(physical(duration(column(select(lazy(list(elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true)))) if ?(gt_eq(col(p2), lit(new(from_ymd_opt(year(first(p3.timesteps).date), month(first(p3.timesteps).date), day(first(p3.timesteps).date)), from_hms_opt(hour(first(p3.timesteps).date), minute(first(p3.timesteps).date), second(first(p3.timesteps).date))))), elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true))))))), (alias(unique(diff(col(p2), 1, Drop)), "duration"))), "duration"))), 0)) is 1
return[] elem(lazy(fill_null(upsample(list(elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true)))) if ?(gt_eq(col(p2), lit(new(from_ymd_opt(year(first(p3.timesteps).date), month(first(p3.timesteps).date), day(first(p3.timesteps).date)), from_hms_opt(hour(first(p3.timesteps).date), minute(first(p3.timesteps).date), second(first(p3.timesteps).date))))), elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true)))))), (), p2, parse(duration_string(first(p3.timesteps).duration))), Forward{0: none})))
    ?(gt_eq(col(p2), lit(new(from_ymd_opt(year(first(p3.timesteps).date), month(first(p3.timesteps).date), day(first(p3.timesteps).date)), from_hms_opt(hour(first(p3.timesteps).date), minute(first(p3.timesteps).date), second(first(p3.timesteps).date))))), elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true))))); ?(lt_eq(col(p2), lit(new(from_ymd_opt(year(last(p3.timesteps).date), month(last(p3.timesteps).date), day(last(p3.timesteps).date)), from_hms_opt(hour(last(p3.timesteps).date), minute(last(p3.timesteps).date), second(last(p3.timesteps).date))))), elem(lazy(fill_null(upsample(list(elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true)))) if ?(gt_eq(col(p2), lit(new(from_ymd_opt(year(first(p3.timesteps).date), month(first(p3.timesteps).date), day(first(p3.timesteps).date)), from_hms_opt(hour(first(p3.timesteps).date), minute(first(p3.timesteps).date), second(first(p3.timesteps).date))))), elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true)))))), (), p2, parse(duration_string(first(p3.timesteps).duration))), Forward{0: none})))); cmp(as_millis(first(p3.timesteps).duration.0), get(physical(duration(column(select(lazy(list(elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true)))) if ?(gt_eq(col(p2), lit(new(from_ymd_opt(year(first(p3.timesteps).date), month(first(p3.timesteps).date), day(first(p3.timesteps).date)), from_hms_opt(hour(first(p3.timesteps).date), minute(first(p3.timesteps).date), second(first(p3.timesteps).date))))), elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true))))))), (alias(unique(diff(col(p2), 1, Drop)), "duration"))), "duration"))), 0)) is 255
return[] elem(lazy(list(elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true)))) if ?(gt_eq(col(p2), lit(new(from_ymd_opt(year(first(p3.timesteps).date), month(first(p3.timesteps).date), day(first(p3.timesteps).date)), from_hms_opt(hour(first(p3.timesteps).date), minute(first(p3.timesteps).date), second(first(p3.timesteps).date))))), elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true))))))))
    ?(gt_eq(col(p2), lit(new(from_ymd_opt(year(first(p3.timesteps).date), month(first(p3.timesteps).date), day(first(p3.timesteps).date)), from_hms_opt(hour(first(p3.timesteps).date), minute(first(p3.timesteps).date), second(first(p3.timesteps).date))))), elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true))))); ?(lt_eq(col(p2), lit(new(from_ymd_opt(year(last(p3.timesteps).date), month(last(p3.timesteps).date), day(last(p3.timesteps).date)), from_hms_opt(hour(last(p3.timesteps).date), minute(last(p3.timesteps).date), second(last(p3.timesteps).date))))), elem(lazy(list(elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true)))) if ?(gt_eq(col(p2), lit(new(from_ymd_opt(year(first(p3.timesteps).date), month(first(p3.timesteps).date), day(first(p3.timesteps).date)), from_hms_opt(hour(first(p3.timesteps).date), minute(first(p3.timesteps).date), second(first(p3.timesteps).date))))), elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true))))))))); cmp(as_millis(first(p3.timesteps).duration.0), get(physical(duration(column(select(lazy(list(elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true)))) if ?(gt_eq(col(p2), lit(new(from_ymd_opt(year(first(p3.timesteps).date), month(first(p3.timesteps).date), day(first(p3.timesteps).date)), from_hms_opt(hour(first(p3.timesteps).date), minute(first(p3.timesteps).date), second(first(p3.timesteps).date))))), elem(lazy(sort(with_columns(lazy(p1), (cast(col(p2), Datetime{0: Milliseconds, 1: none}))), (p2), with_maintain_order(with_order_descending(default(), false), true))))))), (alias(unique(diff(col(p2), 1, Drop)), "duration"))), "duration"))), 0)) is 0
## PandasTimeseries::load
check(self.checksum, join(p1, self.url))
    !is_absolute(self.url); p1 is Some; self.checksum is Some
check(self.checksum, self.url)
    !is_absolute(self.url); p1 is None; self.checksum is Some
    is_absolute(self.url); self.checksum is Some
initialize()
return align_and_resample(self.meta.name, attach(|extract(call(getattr(from_code(xa, _cstr_from_utf8_with_nul_checked("from pathlib import Path\n\nimport pandas as pd\nimport polars as pl\n\n\ndef load_pandas(path: str, index_col: str | int, **kwargs) -> pl.DataFrame:\n    \"\"\"Helper function to load a pandas DataFrame from a file, and then convert it to a polars DataFrame.\n\n    This function is used by the `load` function of the `PandasDataset` in the Rust extension.\n    \"\"\"\n    suffix = Path(path).suffix.lower()\n    match suffix:\n        case \".csv\":\n            df = pd.read_csv(path, index_col=index_col, parse_dates=True, **kwargs)\n        case \".xlsx\":\n            df = pd.read_excel(path, index_col=index_col, **kwargs)\n        case \".h5\":\n            df = pd.read_hdf(path, **kwargs)\n        case _:\n            raise ValueError(f\"Unsupported file format: {suffix}\")\n    return pl.from_pandas(df, include_index=True)\n\0"), _cstr_from_utf8_with_nul_checked("pandas_load.py\0"), _cstr_from_utf8_with_nul_checked("pandas_load\0")), "load_pandas"), (join(p1, self.url), into_bound_py_any(0, xa)), from_sequence(new(xa, list((unbind(into_pyobject(elem(self.kwargs).0, xa)), try_json_value_into_py(xa, elem(self.kwargs).1))))))) if self.kwargs is Some & self.time_col is None / extract(call(getattr(from_code(xa, _cstr_from_utf8_with_nul_checked("from pathlib import Path\n\nimport pandas as pd\nimport polars as pl\n\n\ndef load_pandas(path: str, index_col: str | int, **kwargs) -> pl.DataFrame:\n    \"\"\"Helper function to load a pandas DataFrame from a file, and then convert it to a polars DataFrame.\n\n    This function is used by the `load` function of the `PandasDataset` in the Rust extension.\n    \"\"\"\n    suffix = Path(path).suffix.lower()\n    match suffix:\n        case \".csv\":\n            df = pd.read_csv(path, index_col=index_col, parse_dates=True, **kwargs)\n        case \".xlsx\":\n            df = pd.read_excel(path, index_col=index_col, **kwargs)\n        case \".h5\":\n            df = pd.read_hdf(path, **kwargs)\n        case _:\n            raise ValueError(f\"Unsupported file format: {suffix}\")\n    return pl.from_pandas(df, include_index=True)\n\0"), _cstr_from_utf8_with_nul_checked("pandas_load.py\0"), _cstr_from_utf8_with_nul_checked("pandas_load\0")), "load_pandas"), (join(p1, self.url), into_bound_py_any(0, xa)), none)) if self.kwargs is None & self.time_col is None / extract(call(getattr(from_code(xa, _cstr_from_utf8_with_nul_checked("from pathlib import Path\n\nimport pandas as pd\nimport polars as pl\n\n\ndef load_pandas(path: str, index_col: str | int, **kwargs) -> pl.DataFrame:\n    \"\"\"Helper function to load a pandas DataFrame from a file, and then convert it to a polars DataFrame.\n\n    This function is used by the `load` function of the `PandasDataset` in the Rust extension.\n    \"\"\"\n    suffix = Path(path).suffix.lower()\n    match suffix:\n        case \".csv\":\n            df = pd.read_csv(path, index_col=index_col, parse_dates=True, **kwargs)\n        case \".xlsx\":\n            df = pd.read_excel(path, index_col=index_col, **kwargs)\n        case \".h5\":\n            df = pd.read_hdf(path, **kwargs)\n        case _:\n            raise ValueError(f\"Unsupported file format: {suffix}\")\n    return pl.from_pandas(df, include_index=True)\n\0"), _cstr_from_utf8_with_nul_checked("pandas_load.py\0"), _cstr_from_utf8_with_nul_checked("pandas_load\0")), "load_pandas"), (join(p1, self.url), into_bound_py_any(self.time_col, xa)), from_sequence(new(xa, list((unbind(into_pyobject(elem(self.kwargs).0, xa)), try_json_value_into_py(xa, elem(self.kwargs).1))))))) if self.kwargs is Some & self.time_col is Some / extract(call(getattr(from_code(xa, _cstr_from_utf8_with_nul_checked("from pathlib import Path\n\nimport pandas as pd\nimport polars as pl\n\n\ndef load_pandas(path: str, index_col: str | int, **kwargs) -> pl.DataFrame:\n    \"\"\"Helper function to load a pandas DataFrame from a file, and then convert it to a polars DataFrame.\n\n    This function is used by the `load` function of the `PandasDataset` in the Rust extension.\n    \"\"\"\n    suffix = Path(path).suffix.lower()\n    match suffix:\n        case \".csv\":\n            df = pd.read_csv(path, index_col=index_col, parse_dates=True, **kwargs)\n        case \".xlsx\":\n            df = pd.read_excel(path, index_col=index_col, **kwargs)\n        case \".h5\":\n            df = pd.read_hdf(path, **kwargs)\n        case _:\n            raise ValueError(f\"Unsupported file format: {suffix}\")\n    return pl.from_pandas(df, include_index=True)\n\0"), _cstr_from_utf8_with_nul_checked("pandas_load.py\0"), _cstr_from_utf8_with_nul_checked("pandas_load\0")), "load_pandas"), (join(p1, self.url), into_bound_py_any(self.time_col, xa)), none)) if self.kwargs is None & self.time_col is Some|).0, self.time_col, p2.time, true)
    !is_absolute(self.url); p1 is Some; self.time_col is Some
return align_and_resample(self.meta.name, attach(|extract(call(getattr(from_code(xa, _cstr_from_utf8_with_nul_checked("from pathlib import Path\n\nimport pandas as pd\nimport polars as pl\n\n\ndef load_pandas(path: str, index_col: str | int, **kwargs) -> pl.DataFrame:\n    \"\"\"Helper function to load a pandas DataFrame from a file, and then convert it to a polars DataFrame.\n\n    This function is used by the `load` function of the `PandasDataset` in the Rust extension.\n    \"\"\"\n    suffix = Path(path).suffix.lower()\n    match suffix:\n        case \".csv\":\n            df = pd.read_csv(path, index_col=index_col, parse_dates=True, **kwargs)\n        case \".xlsx\":\n            df = pd.read_excel(path, index_col=index_col, **kwargs)\n        case \".h5\":\n            df = pd.read_hdf(path, **kwargs)\n        case _:\n            raise ValueError(f\"Unsupported file format: {suffix}\")\n    return pl.from_pandas(df, include_index=True)\n\0"), _cstr_from_utf8_with_nul_checked("pandas_load.py\0"), _cstr_from_utf8_with_nul_checked("pandas_load\0")), "load_pandas"), (join(p1, self.url), into_bound_py_any(0, xa)), from_sequence(new(xa, list((unbind(into_pyobject(elem(self.kwargs).0, xa)), try_json_value_into_py(xa, elem(self.kwargs).1))))))) if self.kwargs is Some & self.time_col is None / extract(call(getattr(from_code(xa, _cstr_from_utf8_with_nul_checked("from pathlib import Path\n\nimport pandas as pd\nimport polars as pl\n\n\ndef load_pandas(path: str, index_col: str | int, **kwargs) -> pl.DataFrame:\n    \"\"\"Helper function to load a pandas DataFrame from a file, and then convert it to a polars DataFrame.\n\n    This function is used by the `load` function of the `PandasDataset` in the Rust extension.\n    \"\"\"\n    suffix = Path(path).suffix.lower()\n    match suffix:\n        case \".csv\":\n            df = pd.read_csv(path, index_col=index_col, parse_dates=True, **kwargs)\n        case \".xlsx\":\n            df = pd.read_excel(path, index_col=index_col, **kwargs)\n        case \".h5\":\n            df = pd.read_hdf(path, **kwargs)\n        case _:\n            raise ValueError(f\"Unsupported file format: {suffix}\")\n    return pl.from_pandas(df, include_index=True)\n\0"), _cstr_from_utf8_with_nul_checked("pandas_load.py\0"), _cstr_from_utf8_with_nul_checked("pandas_load\0")), "load_pandas"), (join(p1, self.url), into_bound_py_any(0, xa)), none)) if self.kwargs is None & self.time_col is None / extract(call(getattr(from_code(xa, _cstr_from_utf8_with_nul_checked("from pathlib import Path\n\nimport pandas as pd\nimport polars as pl\n\n\ndef load_pandas(path: str, index_col: str | int, **kwargs) -> pl.DataFrame:\n    \"\"\"Helper function to load a pandas DataFrame from a file, and then convert it to a polars DataFrame.\n\n    This function is used by the `load` function of the `PandasDataset` in the Rust extension.\n    \"\"\"\n    suffix = Path(path).suffix.lower()\n    match suffix:\n        case \".csv\":\n            df = pd.read_csv(path, index_col=index_col, parse_dates=True, **kwargs)\n        case \".xlsx\":\n            df = pd.read_excel(path, index_col=index_col, **kwargs)\n        case \".h5\":\n            df = pd.read_hdf(path, **kwargs)\n        case _:\n            raise ValueError(f\"Unsupported file format: {suffix}\")\n    return pl.from_pandas(df, include_index=True)\n\0"), _cstr_from_utf8_with_nul_checked("pandas_load.py\0"), _cstr_from_utf8_with_nul_checked("pandas_load\0")), "load_pandas"), (join(p1, self.url), into_bound_py_any(self.time_col, xa)), from_sequence(new(xa, list((unbind(into_pyobject(elem(self.kwargs).0, xa)), try_json_value_into_py(xa, elem(self.kwargs).1))))))) if self.kwargs is Some & self.time_col is Some / extract(call(getattr(from_code(xa, _cstr_from_utf8_with_nul_checked("from pathlib import Path\n\nimport pandas as pd\nimport polars as pl\n\n\ndef load_pandas(path: str, index_col: str | int, **kwargs) -> pl.DataFrame:\n    \"\"\"Helper function to load a pandas DataFrame from a file, and then convert it to a polars DataFrame.\n\n    This function is used by the `load` function of the `PandasDataset` in the Rust extension.\n    \"\"\"\n    suffix = Path(path).suffix.lower()\n    match suffix:\n        case \".csv\":\n            df = pd.read_csv(path, index_col=index_col, parse_dates=True, **kwargs)\n        case \".xlsx\":\n            df = pd.read_excel(path, index_col=index_col, **kwargs)\n        case \".h5\":\n            df = pd.read_hdf(path, **kwargs)\n        case _:\n            raise ValueError(f\"Unsupported file format: {suffix}\")\n    return pl.from_pandas(df, include_index=True)\n\0"), _cstr_from_utf8_with_nul_checked("pandas_load.py\0"), _cstr_from_utf8_with_nul_checked("pandas_load\0")), "load_pandas"), (join(p1, self.url), into_bound_py_any(self.time_col, xa)), none)) if self.kwargs is None & self.time_col is Some|).0, to_string(get_column_names(attach(|extract(call(getattr(from_code(xa, _cstr_from_utf8_with_nul_checked("from pathlib import Path\n\nimport pandas as pd\nimport polars as pl\n\n\ndef load_pandas(path: str, index_col: str | int, **kwargs) -> pl.DataFrame:\n    \"\"\"Helper function to load a pandas DataFrame from a file, and then convert it to a polars DataFrame.\n\n    This function is used by the `load` function of the `PandasDataset` in the Rust extension.\n    \"\"\"\n    suffix = Path(path).suffix.lower()\n    match suffix:\n        case \".csv\":\n            df = pd.read_csv(path, index_col=index_col, parse_dates=True, **kwargs)\n        case \".xlsx\":\n            df = pd.read_excel(path, index_col=index_col, **kwargs)\n        case \".h5\":\n            df = pd.read_hdf(path, **kwargs)\n        case _:\n            raise ValueError(f\"Unsupported file format: {suffix}\")\n    return pl.from_pandas(df, include_index=True)\n\0"), _cstr_from_utf8_with_nul_checked("pandas_load.py\0"), _cstr_from_utf8_with_nul_checked("pandas_load\0")), "load_pandas"), (join(p1, self.url), into_bound_py_any(0, xa)), from_sequence(new(xa, list((unbind(into_pyobject(elem(self.kwargs).0, xa)), try_json_value_into_py(xa, elem(self.kwargs).1))))))) if self.kwargs is Some & self.time_col is None / extract(call(getattr(from_code(xa, _cstr_from_utf8_with_nul_checked("from pathlib import Path\n\nimport pandas as pd\nimport polars as pl\n\n\ndef load_pandas(path: str, index_col: str | int, **kwargs) -> pl.DataFrame:\n    \"\"\"Helper function to load a pandas DataFrame from a file, and then convert it to a polars DataFrame.\n\n    This function is used by the `load` function of the `PandasDataset` in the Rust extension.\n    \"\"\"\n    suffix = Path(path).suffix.lower()\n    match suffix:\n        case \".csv\":\n            df = pd.read_csv(path, index_col=index_col, parse_dates=True, **kwargs)\n        case \".xlsx\":\n            df = pd.read_excel(path, index_col=index_col, **kwargs)\n        case \".h5\":\n            df = pd.read_hdf(path, **kwargs)\n        case _:\n            raise ValueError(f\"Unsupported file format: {suffix}\")\n    return pl.from_pandas(df, include_index=True)\n\0"), _cstr_from_utf8_with_nul_checked("pandas_load.py\0"), _cstr_from_utf8_with_nul_checked("pandas_load\0")), "load_pandas"), (join(p1, self.url), into_bound_py_any(0, xa)), none)) if self.kwargs is None & self.time_col is None / extract(call(getattr(from_code(xa, _cstr_from_utf8_with_nul_checked("from pathlib import Path\n\nimport pandas as pd\nimport polars as pl\n\n\ndef load_pandas(path: str, index_col: str | int, **kwargs) -> pl.DataFrame:\n    \"\"\"Helper function to load a pandas DataFrame from a file, and then convert it to a polars DataFrame.\n\n    This function is used by the `load` function of the `PandasDataset` in the Rust extension.\n    \"\"\"\n    suffix = Path(path).suffix.lower()\n    match suffix:\n        case \".csv\":\n            df = pd.read_csv(path, index_col=index_col, parse_dates=True, **kwargs)\n        case \".xlsx\":\n            df = pd.read_excel(path, index_col=index_col, **kwargs)\n        case \".h5\":\n            df = pd.read_hdf(path, **kwargs)\n        case _:\n            raise ValueError(f\"Unsupported file format: {suffix}\")\n    return pl.from_pandas(df, include_index=True)\n\0"), _cstr_from_utf8_with_nul_checked("pandas_load.py\0"), _cstr_from_utf8_with_nul_checked("pandas_load\0")), "load_pandas"), (join(p1, self.url), into_bound_py_any(self.time_col, xa)), from_sequence(new(xa, list((unbind(into_pyobject(elem(self.kwargs).0, xa)), try_json_value_into_py(xa, elem(self.kwargs).1))))))) if self.kwargs is Some & self.time_col is Some / extract(call(getattr(from_code(xa, _cstr_from_utf8_with_nul_checked("from pathlib import Path\n\nimport pandas as pd\nimport polars as pl\n\n\ndef load_pandas(path: str, index_col: str | int, **kwargs) -> pl.DataFrame:\n    \"\"\"Helper function to load a pandas DataFrame from a file, and then convert it to a polars DataFrame.\n\n    This function is used by the `load` function of the `PandasDataset` in the Rust extension.\n    \"\"\"\n    suffix = Path(path).suffix.lower()\n    match suffix:\n        case \".csv\":\n            df = pd.read_csv(path, index_col=index_col, parse_dates=True, **kwargs)\n        case \".xlsx\":\n            df = pd.read_excel(path, index_col=index_col, **kwargs)\n        case \".h5\":\n            df = pd.read_hdf(path, **kwargs)\n        case _:\n            raise ValueError(f\"Unsupported file format: {suffix}\")\n    return pl.from_pandas(df, include_index=True)\n\0"), _cstr_from_utf8_with_nul_checked("pandas_load.py\0"), _cstr_from_utf8_with_nul_checked("pandas_load\0")), "load_pandas"), (join(p1, self.url), into_bound_py_any(self.time_col, xa)), none)) if self.kwargs is None & self.time_col is Some|).0)[0]), p2.time, true)
    !is_absolute(self.url); p1 is Some; self.time_col is None
return align_and_resample(self.meta.name, attach(|extract(call(getattr(from_code(xa, _cstr_from_utf8_with_nul_checked("from pathlib import Path\n\nimport pandas as pd\nimport polars as pl\n\n\ndef load_pandas(path: str, index_col: str | int, **kwargs) -> pl.DataFrame:\n    \"\"\"Helper function to load a pandas DataFrame from a file, and then convert it to a polars DataFrame.\n\n    This function is used by the `load` function of the `PandasDataset` in the Rust extension.\n    \"\"\"\n    suffix = Path(path).suffix.lower()\n    match suffix:\n        case \".csv\":\n            df = pd.read_csv(path, index_col=index_col, parse_dates=True, **kwargs)\n        case \".xlsx\":\n            df = pd.read_excel(path, index_col=index_col, **kwargs)\n        case \".h5\":\n            df = pd.read_hdf(path, **kwargs)\n        case _:\n            raise ValueError(f\"Unsupported file format: {suffix}\")\n    return pl.from_pandas(df, include_index=True)\n\0"), _cstr_from_utf8_with_nul_checked("pandas_load.py\0"), _cstr_from_utf8_with_nul_checked("pandas_load\0")), "load_pandas"), (self.url, into_bound_py_any(0, xa)), from_sequence(new(xa, list((unbind(into_pyobject(elem(self.kwargs).0, xa)), try_json_value_into_py(xa, elem(self.kwargs).1))))))) if self.kwargs is Some & self.time_col is None / extract(call(getattr(from_code(xa, _cstr_from_utf8_with_nul_checked("from pathlib import Path\n\nimport pandas as pd\nimport polars as pl\n\n\ndef load_pandas(path: str, index_col: str | int, **kwargs) -> pl.DataFrame:\n    \"\"\"Helper function to load a pandas DataFrame from a file, and then convert it to a polars DataFrame.\n\n    This function is used by the `load` function of the `PandasDataset` in the Rust extension.\n    \"\"\"\n    suffix = Path(path).suffix.lower()\n    match suffix:\n        case \".csv\":\n            df = pd.read_csv(path, index_col=index_col, parse_dates=True, **kwargs)\n        case \".xlsx\":\n            df = pd.read_excel(path, index_col=index_col, **kwargs)\n        case \".h5\":\n            df = pd.read_hdf(path, **kwargs)\n        case _:\n            raise ValueError(f\"Unsupported file format: {suffix}\")\n    return pl.from_pandas(df, include_index=True)\n\0"), _cstr_from_utf8_with_nul_checked("pandas_load.py\0"), _cstr_from_utf8_with_nul_checked("pandas_load\0")), "load_pandas"), (self.url, into_bound_py_any(0, xa)), none)) if self.kwargs is None & self.time_col is None / extract(call(getattr(from_code(xa, _cstr_from_utf8_with_nul_checked("from pathlib import Path\n\nimport pandas as pd\nimport polars as pl\n\n\ndef load_pandas(path: str, index_col: str | int, **kwargs) -> pl.DataFrame:\n    \"\"\"Helper function to load a pandas DataFrame from a file, and then convert it to a polars DataFrame.\n\n    This function is used by the `load` function of the `PandasDataset` in the Rust extension.\n    \"\"\"\n    suffix = Path(path).suffix.lower()\n    match suffix:\n        case \".csv\":\n            df = pd.read_csv(path, index_col=index_col, parse_dates=True, **kwargs)\n        case \".xlsx\":\n            df = pd.read_excel(path, index_col=index_col, **kwargs)\n        case \".h5\":\n            df = pd.read_hdf(path, **kwargs)\n        case _:\n            raise ValueError(f\"Unsupported file format: {suffix}\")\n    return pl.from_pandas(df, include_index=True)\n\0"), _cstr_from_utf8_with_nul_checked("pandas_load.py\0"), _cstr_from_utf8_with_nul_checked("pandas_load\0")), "load_pandas"), (self.url, into_bound_py_any(self.time_col, xa)), from_sequence(new(xa, list((unbind(into_pyobject(elem(self.kwargs).0, xa)), try_json_value_into_py(xa, elem(self.kwargs).1))))))) if self.kwargs is Some & self.time_col is Some / extract(call(getattr(from_code(xa, _cstr_from_utf8_with_nul_checked("from pathlib import Path\n\nimport pandas as pd\nimport polars as pl\n\n\ndef load_pandas(path: str, index_col: str | int, **kwargs) -> pl.DataFrame:\n    \"\"\"Helper function to load a pandas DataFrame from a file, and then convert it to a polars DataFrame.\n\n    This function is used by the `load` function of the `PandasDataset` in the Rust extension.\n    \"\"\"\n    suffix = Path(path).suffix.lower()\n    match suffix:\n        case \".csv\":\n            df = pd.read_csv(path, index_col=index_col, parse_dates=True, **kwargs)\n        case \".xlsx\":\n            df = pd.read_excel(path, index_col=index_col, **kwargs)\n        case \".h5\":\n            df = pd.read_hdf(path, **kwargs)\n        case _:\n            raise ValueError(f\"Unsupported file format: {suffix}\")\n    return pl.from_pandas(df, include_index=True)\n\0"), _cstr_from_utf8_with_nul_checked("pandas_load.py\0"), _cstr_from_utf8_with_nul_checked("pandas_load\0")), "load_pandas"), (self.url, into_bound_py_any(self.time_col, xa)), none)) if self.kwargs is None & self.time_col is Some|).0, self.time_col, p2.time, true)
    !is_absolute(self.url); p1 is None; self.time_col is Some
    is_absolute(self.url); self.time_col is Some
return align_and_resample(self.meta.name, attach(|extract(call(getattr(from_code(xa, _cstr_from_utf8_with_nul_checked("from pathlib import Path\n\nimport pandas as pd\nimport polars as pl\n\n\ndef load_pandas(path: str, index_col: str | int, **kwargs) -> pl.DataFrame:\n    \"\"\"Helper function to load a pandas DataFrame from a file, and then convert it to a polars DataFrame.\n\n    This function is used by the `load` function of the `PandasDataset` in the Rust extension.\n    \"\"\"\n    suffix = Path(path).suffix.lower()\n    match suffix:\n        case \".csv\":\n            df = pd.read_csv(path, index_col=index_col, parse_dates=True, **kwargs)\n        case \".xlsx\":\n            df = pd.read_excel(path, index_col=index_col, **kwargs)\n        case \".h5\":\n            df = pd.read_hdf(path, **kwargs)\n        case _:\n            raise ValueError(f\"Unsupported file format: {suffix}\")\n    return pl.from_pandas(df, include_index=True)\n\0"), _cstr_from_utf8_with_nul_checked("pandas_load.py\0"), _cstr_from_utf8_with_nul_checked("pandas_load\0")), "load_pandas"), (self.url, into_bound_py_any(0, xa)), from_sequence(new(xa, list((unbind(into_pyobject(elem(self.kwargs).0, xa)), try_json_value_into_py(xa, elem(self.kwargs).1))))))) if self.kwargs is Some & self.time_col is None / extract(call(getattr(from_code(xa, _cstr_from_utf8_with_nul_checked("from pathlib import Path\n\nimport pandas as pd\nimport polars as pl\n\n\ndef load_pandas(path: str, index_col: str | int, **kwargs) -> pl.DataFrame:\n    \"\"\"Helper function to load a pandas DataFrame from a file, and then convert it to a polars DataFrame.\n\n    This function is used by the `load` function of the `PandasDataset` in the Rust extension.\n    \"\"\"\n    suffix = Path(path).suffix.lower()\n    match suffix:\n        case \".csv\":\n            df = pd.read_csv(path, index_col=index_col, parse_dates=True, **kwargs)\n        case \".xlsx\":\n            df = pd.read_excel(path, index_col=index_col, **kwargs)\n        case \".h5\":\n            df = pd.read_hdf(path, **kwargs)\n        case _:\n            raise ValueError(f\"Unsupported file format: {suffix}\")\n    return pl.from_pandas(df, include_index=True)\n\0"), _cstr_from_utf8_with_nul_checked("pandas_load.py\0"), _cstr_from_utf8_with_nul_checked("pandas_load\0")), "load_pandas"), (self.url, into_bound_py_any(0, xa)), none)) if self.kwargs is None & self.time_col is None / extract(call(getattr(from_code(xa, _cstr_from_utf8_with_nul_checked("from pathlib import Path\n\nimport pandas as pd\nimport polars as pl\n\n\ndef load_pandas(path: str, index_col: str | int, **kwargs) -> pl.DataFrame:\n    \"\"\"Helper function to load a pandas DataFrame from a file, and then convert it to a polars DataFrame.\n\n    This function is used by the `load` function of the `PandasDataset` in the Rust extension.\n    \"\"\"\n    suffix = Path(path).suffix.lower()\n    match suffix:\n        case \".csv\":\n            df = pd.read_csv(path, index_col=index_col, parse_dates=True, **kwargs)\n        case \".xlsx\":\n            df = pd.read_excel(path, index_col=index_col, **kwargs)\n        case \".h5\":\n            df = pd.read_hdf(path, **kwargs)\n        case _:\n            raise ValueError(f\"Unsupported file format: {suffix}\")\n    return pl.from_pandas(df, include_index=True)\n\0"), _cstr_from_utf8_with_nul_checked("pandas_load.py\0"), _cstr_from_utf8_with_nul_checked("pandas_load\0")), "load_pandas"), (self.url, into_bound_py_any(self.time_col, xa)), from_sequence(new(xa, list((unbind(into_pyobject(elem(self.kwargs).0, xa)), try_json_value_into_py(xa, elem(self.kwargs).1))))))) if self.kwargs is Some & self.time_col is Some / extract(call(getattr(from_code(xa, _cstr_from_utf8_with_nul_checked("from pathlib import Path\n\nimport pandas as pd\nimport polars as pl\n\n\ndef load_pandas(path: str, index_col: str | int, **kwargs) -> pl.DataFrame:\n    \"\"\"Helper function to load a pandas DataFrame from a file, and then convert it to a polars DataFrame.\n\n    This function is used by the `load` function of the `PandasDataset` in the Rust extension.\n    \"\"\"\n    suffix = Path(path).suffix.lower()\n    match suffix:\n        case \".csv\":\n            df = pd.read_csv(path, index_col=index_col, parse_dates=True, **kwargs)\n        case \".xlsx\":\n            df = pd.read_excel(path, index_col=index_col, **kwargs)\n        case \".h5\":\n            df = pd.read_hdf(path, **kwargs)\n        case _:\n            raise ValueError(f\"Unsupported file format: {suffix}\")\n    return pl.from_pandas(df, include_index=True)\n\0"), _cstr_from_utf8_with_nul_checked("pandas_load.py\0"), _cstr_from_utf8_with_nul_checked("pandas_load\0")), "load_pandas"), (self.url, into_bound_py_any(self.time_col, xa)), none)) if self.kwargs is None & self.time_col is Some|).0, to_string(get_column_names(attach(|extract(call(getattr(from_code(xa, _cstr_from_utf8_with_nul_checked("from pathlib import Path\n\nimport pandas as pd\nimport polars as pl\n\n\ndef load_pandas(path: str, index_col: str | int, **kwargs) -> pl.DataFrame:\n    \"\"\"Helper function to load a pandas DataFrame from a file, and then convert it to a polars DataFrame.\n\n    This function is used by the `load` function of the `PandasDataset` in the Rust extension.\n    \"\"\"\n    suffix = Path(path).suffix.lower()\n    match suffix:\n        case \".csv\":\n            df = pd.read_csv(path, index_col=index_col, parse_dates=True, **kwargs)\n        case \".xlsx\":\n            df = pd.read_excel(path, index_col=index_col, **kwargs)\n        case \".h5\":\n            df = pd.read_hdf(path, **kwargs)\n        case _:\n            raise ValueError(f\"Unsupported file format: {suffix}\")\n    return pl.from_pandas(df, include_index=True)\n\0"), _cstr_from_utf8_with_nul_checked("pandas_load.py\0"), _cstr_from_utf8_with_nul_checked("pandas_load\0")), "load_pandas"), (self.url, into_bound_py_any(0, xa)), from_sequence(new(xa, list((unbind(into_pyobject(elem(self.kwargs).0, xa)), try_json_value_into_py(xa, elem(self.kwargs).1))))))) if self.kwargs is Some & self.time_col is None / extract(call(getattr(from_code(xa, _cstr_from_utf8_with_nul_checked("from pathlib import Path\n\nimport pandas as pd\nimport polars as pl\n\n\ndef load_pandas(path: str, index_col: str | int, **kwargs) -> pl.DataFrame:\n    \"\"\"Helper function to load a pandas DataFrame from a file, and then convert it to a polars DataFrame.\n\n    This function is used by the `load` function of the `PandasDataset` in the Rust extension.\n    \"\"\"\n    suffix = Path(path).suffix.lower()\n    match suffix:\n        case \".csv\":\n            df = pd.read_csv(path, index_col=index_col, parse_dates=True, **kwargs)\n        case \".xlsx\":\n            df = pd.read_excel(path, index_col=index_col, **kwargs)\n        case \".h5\":\n            df = pd.read_hdf(path, **kwargs)\n        case _:\n            raise ValueError(f\"Unsupported file format: {suffix}\")\n    return pl.from_pandas(df, include_index=True)\n\0"), _cstr_from_utf8_with_nul_checked("pandas_load.py\0"), _cstr_from_utf8_with_nul_checked("pandas_load\0")), "load_pandas"), (self.url, into_bound_py_any(0, xa)), none)) if self.kwargs is None & self.time_col is None / extract(call(getattr(from_code(xa, _cstr_from_utf8_with_nul_checked("from pathlib import Path\n\nimport pandas as pd\nimport polars as pl\n\n\ndef load_pandas(path: str, index_col: str | int, **kwargs) -> pl.DataFrame:\n    \"\"\"Helper function to load a pandas DataFrame from a file, and then convert it to a polars DataFrame.\n\n    This function is used by the `load` function of the `PandasDataset` in the Rust extension.\n    \"\"\"\n    suffix = Path(path).suffix.lower()\n    match suffix:\n        case \".csv\":\n            df = pd.read_csv(path, index_col=index_col, parse_dates=True, **kwargs)\n        case \".xlsx\":\n            df = pd.read_excel(path, index_col=index_col, **kwargs)\n        case \".h5\":\n            df = pd.read_hdf(path, **kwargs)\n        case _:\n            raise ValueError(f\"Unsupported file format: {suffix}\")\n    return pl.from_pandas(df, include_index=True)\n\0"), _cstr_from_utf8_with_nul_checked("pandas_load.py\0"), _cstr_from_utf8_with_nul_checked("pandas_load\0")), "load_pandas"), (self.url, into_bound_py_any(self.time_col, xa)), from_sequence(new(xa, list((unbind(into_pyobject(elem(self.kwargs).0, xa)), try_json_value_into_py(xa, elem(self.kwargs).1))))))) if self.kwargs is Some & self.time_col is Some / extract(call(getattr(from_code(xa, _cstr_from_utf8_with_nul_checked("from pathlib import Path\n\nimport pandas as pd\nimport polars as pl\n\n\ndef load_pandas(path: str, index_col: str | int, **kwargs) -> pl.DataFrame:\n    \"\"\"Helper function to load a pandas DataFrame from a file, and then convert it to a polars DataFrame.\n\n    This function is used by the `load` function of the `PandasDataset` in the Rust extension.\n    \"\"\"\n    suffix = Path(path).suffix.lower()\n    match suffix:\n        case \".csv\":\n            df = pd.read_csv(path, index_col=index_col, parse_dates=True, **kwargs)\n        case \".xlsx\":\n            df = pd.read_excel(path, index_col=index_col, **kwargs)\n        case \".h5\":\n            df = pd.read_hdf(path, **kwargs)\n        case _:\n            raise ValueError(f\"Unsupported file format: {suffix}\")\n    return pl.from_pandas(df, include_index=True)\n\0"), _cstr_from_utf8_with_nul_checked("pandas_load.py\0"), _cstr_from_utf8_with_nul_checked("pandas_load\0")), "load_pandas"), (self.url, into_bound_py_any(self.time_col, xa)), none)) if self.kwargs is None & self.time_col is Some|).0)[0]), p2.time, true)
    !is_absolute(self.url); p1 is None; self.time_col is None
    is_absolute(self.url); self.time_col is None
## PolarsTimeseries::load
[accepts]
    !is_absolute(self.url); Eq("csv", to_lowercase(to_str(extension(join(p1, self.url)))))
    !is_absolute(self.url); Eq("csv", to_lowercase(to_str(extension(self.url)))); p1 is None
    Eq("csv", to_lowercase(to_str(extension(self.url)))); is_absolute(self.url)
[success]
    !is_absolute(self.url); p1 is None; to_str(extension(self.url)) is Some
    !is_absolute(self.url); p1 is Some; to_str(extension(join(p1, self.url))) is Some
    is_absolute(self.url); to_str(extension(self.url)) is Some
check(self.checksum, join(p1, self.url))
    !is_absolute(self.url); p1 is Some; self.checksum is Some
check(self.checksum, self.url)
    is_absolute(self.url); self.checksum is Some
    p1 is None; self.checksum is Some
return align_and_resample(self.meta.name, finish(try_into_reader_with_file_path(with_infer_schema_length(with_parse_options(with_has_header(with_schema(default(), none), true), with_try_parse_dates(default(), true)), self.infer_schema_length), join(p1, self.url))), self.time_col, p2.time, true)
    !is_absolute(self.url); p1 is Some; self.infer_schema_length is Some; self.time_col is Some
return align_and_resample(self.meta.name, finish(try_into_reader_with_file_path(with_infer_schema_length(with_parse_options(with_has_header(with_schema(default(), none), true), with_try_parse_dates(default(), true)), self.infer_schema_length), join(p1, self.url))), to_string(get_column_names(finish(try_into_reader_with_file_path(with_infer_schema_length(with_parse_options(with_has_header(with_schema(default(), none), true), with_try_parse_dates(default(), true)), self.infer_schema_length), join(p1, self.url))))[0]), p2.time, true)
    !is_absolute(self.url); p1 is Some; self.infer_schema_length is Some; self.time_col is None
return align_and_resample(self.meta.name, finish(try_into_reader_with_file_path(with_infer_schema_length(with_parse_options(with_has_header(with_schema(default(), none), true), with_try_parse_dates(default(), true)), self.infer_schema_length), self.url)), self.time_col, p2.time, true)
    is_absolute(self.url); self.infer_schema_length is Some; self.time_col is Some
    p1 is None; self.infer_schema_length is Some; self.time_col is Some
return align_and_resample(self.meta.name, finish(try_into_reader_with_file_path(with_infer_schema_length(with_parse_options(with_has_header(with_schema(default(), none), true), with_try_parse_dates(default(), true)), self.infer_schema_length), self.url)), to_string(get_column_names(finish(try_into_reader_with_file_path(with_infer_schema_length(with_parse_options(with_has_header(with_schema(default(), none), true), with_try_parse_dates(default(), true)), self.infer_schema_length), self.url)))[0]), p2.time, true)
    is_absolute(self.url); self.infer_schema_length is Some; self.time_col is None
    p1 is None; self.infer_schema_length is Some; self.time_col is None
return align_and_resample(self.meta.name, finish(try_into_reader_with_file_path(with_parse_options(with_has_header(with_schema(default(), none), true), with_try_parse_dates(default(), true)), join(p1, self.url))), self.time_col, p2.time, true)
    !is_absolute(self.url); p1 is Some; self.infer_schema_length is None; self.time_col is Some
return align_and_resample(self.meta.name, finish(try_into_reader_with_file_path(with_parse_options(with_has_header(with_schema(default(), none), true), with_try_parse_dates(default(), true)), join(p1, self.url))), to_string(get_column_names(finish(try_into_reader_with_file_path(with_parse_options(with_has_header(with_schema(default(), none), true), with_try_parse_dates(default(), true)), join(p1, self.url))))[0]), p2.time, true)
    !is_absolute(self.url); p1 is Some; self.infer_schema_length is None; self.time_col is None
return align_and_resample(self.meta.name, finish(try_into_reader_with_file_path(with_parse_options(with_has_header(with_schema(default(), none), true), with_try_parse_dates(default(), true)), self.url)), self.time_col, p2.time, true)
    is_absolute(self.url); self.infer_schema_length is None; self.time_col is Some
    p1 is None; self.infer_schema_length is None; self.time_col is Some
return align_and_resample(self.meta.name, finish(try_into_reader_with_file_path(with_parse_options(with_has_header(with_schema(default(), none), true), with_try_parse_dates(default(), true)), self.url)), to_string(get_column_names(finish(try_into_reader_with_file_path(with_parse_options(with_has_header(with_schema(default(), none), true), with_try_parse_dates(default(), true)), self.url)))[0]), p2.time, true)
    is_absolute(self.url); self.infer_schema_length is None; self.time_col is None
    p1 is None; self.infer_schema_length is None; self.time_col is None
## Timeseries::load
return load(self~Pandas.0, p2, p1)
    self is Pandas
return load(self~Polars.0, p2, p1)
    self is Polars
## Timeseries::name
return self~Pandas.0.meta.name
    self is Pandas
return self~Polars.0.meta.name
    self is Polars
## LoadedTimeseriesCollection::from_schema
[accepts]
    !contains_key(list((name(elem(p0)), load(elem(p0), p1, p2)) if !contains_key(new(), name(elem(p0))) & p0 is Some), name(elem(p0)))
    p0 is None
return LoadedTimeseriesCollection{timeseries: list((name(elem(p0)), load(elem(p0), p1, p2)) if p0 is Some)}
## LoadedTimeseriesCollection::load_column_f64
push(p1.parameters.f64, new(Array1ParameterBuilder{array: to_ndarray(f64(cast(rechunk(column(self.timeseries[p2], p3)), Float64))), meta: ParameterMeta{name: new(p3, p2)}, timestep_offset: none}))
    !contains_name(p1.parameters, new(p3, p2))
return new(p3, p2)
## LoadedTimeseriesCollection::load_column_usize
push(p1.parameters.u64, new(Array1ParameterBuilder{array: to_ndarray(u64(cast(rechunk(column(self.timeseries[p2], p3)), UInt64))), meta: ParameterMeta{name: new(p3, p2)}, timestep_offset: none}))
    !contains_name(p1.parameters, new(p3, p2))
return new(p3, p2)
## LoadedTimeseriesCollection::load_single_column_f64
[accepts]
    Lt(len(get_column_names(self.timeseries[p2])), 2)
push(p1.parameters.f64, new(Array1ParameterBuilder{array: to_ndarray(f64(cast(rechunk(column(self.timeseries[p2], first(get_column_names(self.timeseries[p2])))), Float64))), meta: ParameterMeta{name: new(first(get_column_names(self.timeseries[p2])), p2)}, timestep_offset: none}))
    !contains_name(p1.parameters, new(first(get_column_names(self.timeseries[p2])), p2))
return new(first(get_column_names(self.timeseries[p2])), p2)
## LoadedTimeseriesCollection::load_single_column_usize
[accepts]
    Lt(len(get_column_names(self.timeseries[p2])), 2)
push(p1.parameters.u64, new(Array1ParameterBuilder{array: to_ndarray(u64(cast(rechunk(column(self.timeseries[p2], first(get_column_names(self.timeseries[p2])))), UInt64))), meta: ParameterMeta{name: new(first(get_column_names(self.timeseries[p2])), p2)}, timestep_offset: none}))
    !contains_name(p1.parameters, new(first(get_column_names(self.timeseries[p2])), p2))
return new(first(get_column_names(self.timeseries[p2])), p2)
## LoadedTimeseriesCollection::load_df_f64
push(p1.parameters.f64, new(Array2ParameterBuilder{array: to_ndarray(self.timeseries[p2], default()), meta: ParameterMeta{name: new(p3, p2)}, scenario_group: p3, timestep_offset: none}))
    !contains_name(p1.parameters, new(p3, p2))
return new(p3, p2)
## LoadedTimeseriesCollection::load_df_usize
push(p1.parameters.u64, new(Array2ParameterBuilder{array: to_ndarray(self.timeseries[p2], default()), meta: ParameterMeta{name: new(p3, p2)}, scenario_group: p3, timestep_offset: none}))
    !contains_name(p1.parameters, new(p3, p2))
return new(p3, p2)
## TimeseriesReference::new
return TimeseriesReference{}
return.columns p1
return.name p0
## TimeseriesReference::name
return self.name
## TimeseriesReference::column
[accepts]
    self.columns is Column|None|Scenario
return none
    self.columns is None
    self.columns is Some; self.columns? is Scenario
return self.columns~Column.name
    self.columns is Some; self.columns? is Column
