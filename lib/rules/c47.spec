## TableScalarValue::as_f64
return self~Float.0
    self is Float
return self~Int.0
    self is Int
## TableScalarValue::try_as_u64
return none
    !Eq(0, fract(self~Float.0)); !Lt(self~Float.0, 0); self is Float
    Lt(self~Float.0, 0); self is Float
    Lt(self~Int.0, 0); self is Int
return self~Float.0
    !Lt(self~Float.0, 0); Eq(0, fract(self~Float.0)); self is Float
return self~Int.0
    !Lt(self~Int.0, 0); self is Int
## ScalarTable<N>::get_scalar
[accepts]
    Eq(N, len(p1))
return self.values[try_into(p1)]
## LoadedScalarTable::get_scalar
return get_scalar(self~Four.0, p1, 4)
    self is Four
return get_scalar(self~One.0, p1, 1)
    self is One
return get_scalar(self~Three.0, p1, 3)
    self is Three
return get_scalar(self~Two.0, p1, 2)
    self is Two
## LoadedScalarTable::from_csv_row
[accepts]
    p1 is 1|2|3|4
[success]
    p1 is 1|2|3|4
return Four{0: load_csv_rows_scalar_table(p0, 4)}
    p1 is 4
return One{0: load_csv_rows_scalar_table(p0, 1)}
    p1 is 1
return Three{0: load_csv_rows_scalar_table(p0, 3)}
    p1 is 3
return Two{0: load_csv_rows_scalar_table(p0, 2)}
    p1 is 2
## LoadedScalarTable::from_csv_col
[accepts]
    p1 is 1|2|3|4
[success]
    p1 is 1|2|3|4
return Four{0: load_csv_cols_scalar_table(p0, 4)}
    p1 is 4
return One{0: load_csv_cols_scalar_table(p0, 1)}
    p1 is 1
return Three{0: load_csv_cols_scalar_table(p0, 3)}
    p1 is 3
return Two{0: load_csv_cols_scalar_table(p0, 2)}
    p1 is 2
## LoadedScalarTable::from_csv_row_col
[accepts]
    Eq(1, p1); Eq(1, p2)
    Eq(1, p1); Eq(2, p2)
    Eq(1, p2); Eq(2, p1)
    Eq(2, p1); Eq(2, p2)
[success]
    Eq(1, p1); Eq(1, p2)
    Eq(1, p1); Eq(2, p2)
    Eq(1, p2); Eq(2, p1)
    Eq(2, p1); Eq(2, p2)
return Four{0: load_csv_row_col_scalar_table(p0, 2, 2, 4)}
    Eq(2, p1); Eq(2, p2)
return Three{0: load_csv_row_col_scalar_table(p0, 1, 2, 3)}
    Eq(1, p1); Eq(2, p2)
return Three{0: load_csv_row_col_scalar_table(p0, 2, 1, 3)}
    Eq(1, p2); Eq(2, p1)
return Two{0: load_csv_row_col_scalar_table(p0, 1, 1, 2)}
    Eq(1, p1); Eq(1, p2)
## scalar::load_csv_row_col_scalar_table
headers(from_reader(new(open(p0))))
push(elem(list(list(elem(headers(from_reader(new(open(p0))))) if skip(C)) if for each(skip(iter(headers(from_reader(new(open(p0))))), C)) & skip(C))), elem(elem(records(from_reader(new(open(p0)))))))
    for each(Range{end: R, start: 1}); skip(C)
records(from_reader(new(open(p0))))
return ScalarTable{values: list((try_into(list(elem(list(elem(headers(from_reader(new(open(p0))))) if skip(C))), get(elem(records(from_reader(new(open(p0))))), elem(Range{end: C, start: 0})))), ok(from_str(elem(elem(records(from_reader(new(open(p0))))))))) if for each(Range{end: R, start: 1}) & for each(skip(iter(headers(from_reader(new(open(p0))))), C)) & ok(from_str(elem(elem(records(from_reader(new(open(p0)))))))) is Some & skip(C))}
## scalar::load_csv_rows_scalar_table
records(from_reader(new(open(p0))))
return ScalarTable{values: list((try_into(list(get(elem(records(from_reader(new(open(p0))))), elem(Range{end: N, start: 0})))), list(ok(from_str(elem(elem(records(from_reader(new(open(p0)))))))) if skip(N))[0]) if list(ok(from_str(elem(elem(records(from_reader(new(open(p0)))))))) if skip(N))[0] is Some)}
## scalar::load_csv_cols_scalar_table
[accepts]
    Lt(len(list(list(ok(from_str(elem(elem(records(from_reader(new(open(p0))))))))))), 2)
headers(from_reader(new(open(p0))))
push(elem(list(headers(from_reader(new(open(p0)))) if for each(headers(from_reader(new(open(p0))))))), elem(elem(records(from_reader(new(open(p0)))))))
    for each(Range{end: N, start: 1})
records(from_reader(new(open(p0))))
return ScalarTable{values: list((try_into(headers(from_reader(new(open(p0))))), elem(list(list(ok(from_str(elem(elem(records(from_reader(new(open(p0))))))))))[0])) if elem(list(list(ok(from_str(elem(elem(records(from_reader(new(open(p0))))))))))[0]) is Some & for each(Range{end: N, start: 1}) & for each(headers(from_reader(new(open(p0))))))}
## VecTable<N, T>::get_vec
[accepts]
    Eq(N, len(p1))
[success]
    self.values[try_into(p1)] is Some
return self.values[try_into(p1)]
## LoadedVecTable<T>::get_vec
return get_vec(self~Four.0, p1, 4)
    self is Four
return get_vec(self~One.0, p1, 1)
    self is One
return get_vec(self~Three.0, p1, 3)
    self is Three
return get_vec(self~Two.0, p1, 2)
    self is Two
## LoadedVecTable<T>::from_csv_row
[accepts]
    p1 is 1|2|3|4
[success]
    p1 is 1|2|3|4
return Four{0: load_csv_row_vec_table(p0, 4)}
    p1 is 4
return One{0: load_csv_row_vec_table(p0, 1)}
    p1 is 1
return Three{0: load_csv_row_vec_table(p0, 3)}
    p1 is 3
return Two{0: load_csv_row_vec_table(p0, 2)}
    p1 is 2
## LoadedVecTable<T>::from_csv_col
[accepts]
    p1 is 1|2|3|4
[success]
    p1 is 1|2|3|4
return Four{0: load_csv_col_vec_table(p0, 4)}
    p1 is 4
return One{0: load_csv_col_vec_table(p0, 1)}
    p1 is 1
return Three{0: load_csv_col_vec_table(p0, 3)}
    p1 is 3
return Two{0: load_csv_col_vec_table(p0, 2)}
    p1 is 2
## vec::load_csv_row_vec_table
records(from_reader(new(open(p0))))
return VecTable{values: list((try_into(list(get(elem(records(from_reader(new(open(p0))))), elem(Range{end: N, start: 0})))), list(parse(elem(elem(records(from_reader(new(open(p0))))))) if skip(N))))}
## vec::load_csv_col_vec_table
headers(from_reader(new(open(p0))))
push(elem(list(headers(from_reader(new(open(p0)))) if for each(headers(from_reader(new(open(p0))))))), elem(elem(records(from_reader(new(open(p0)))))))
    for each(Range{end: N, start: 1})
records(from_reader(new(open(p0))))
return VecTable{values: list((try_into(headers(from_reader(new(open(p0))))), list(parse(elem(elem(records(from_reader(new(open(p0))))))))) if for each(headers(from_reader(new(open(p0))))))}
## DataTable::name
return self~CSV.0.meta.name
## DataTable::meta
return self~CSV.0.meta
## DataTable::load
return load_f64(self~CSV.0, p1)
## CsvDataTable::load_f64
[accepts]
    self.lookup is Col|Row; self.ty is Array
    self.ty is Scalar
[success]
    self.lookup is Col|Row; self.ty is Array
    self.ty is Scalar
check(self.checksum, make_path(self.url, p1))
    self.checksum is Some
return FloatScalar{0: from_csv_col(make_path(self.url, p1), self.lookup~Col.rows)}
    self.lookup is Col; self.ty is Scalar
return FloatScalar{0: from_csv_row(make_path(self.url, p1), self.lookup~Row.cols)}
    self.lookup is Row; self.ty is Scalar
return FloatScalar{0: from_csv_row_col(make_path(self.url, p1), self.lookup~Both.rows, self.lookup~Both.cols)}
    self.lookup is Both
return FloatVec{0: from_csv_col(make_path(self.url, p1), self.lookup~Col.rows)}
    self.lookup is Col; self.ty is Array
return FloatVec{0: from_csv_row(make_path(self.url, p1), self.lookup~Row.cols)}
    self.lookup is Row; self.ty is Array
## data_tables::make_path
return join(p1, p0)
    is_relative(p0); p1 is Some
return p0
    !is_relative(p0)
    is_relative(p0); p1 is None
## LoadedTable::get_vec_f64
[accepts]
    self is FloatVec
return get_vec(self~FloatVec.0, p1)
## LoadedTable::get_scalar_f64
[accepts]
    self is FloatScalar
return as_f64(get_scalar(self~FloatScalar.0, p1))
## LoadedTable::get_scalar_u64
[accepts]
    self is FloatScalar
return try_as_u64(get_scalar(self~FloatScalar.0, p1))
## LoadedTableCollection::from_schema
[accepts]
    !contains_key(list((elem(p0)~CSV.0.meta.name, load_f64(elem(p0)~CSV.0, p1)) if !contains_key(new(), elem(p0)~CSV.0.meta.name) & p0 is Some), elem(p0)~CSV.0.meta.name)
    p0 is None
return LoadedTableCollection{tables: list((elem(p0)~CSV.0.meta.name, load_f64(elem(p0)~CSV.0, p1)) if p0 is Some)}
## LoadedTableCollection::get_table
return self.tables[p1]
## LoadedTableCollection::get_scalar_f64
return get_scalar_f64(self.tables[p1.table], key(p1))
## LoadedTableCollection::get_scalar_u64
return get_scalar_u64(self.tables[p1.table], key(p1))
## LoadedTableCollection::get_vec_f64
return get_vec_f64(self.tables[p1.table], key(p1))
## TableDataRef::key
[accepts]
    self.column is Multi|None|Single; self.row is Multi|None|Single
extend(new(), map(self.column~Multi.0, |xa|))
    self.column is Some; self.column? is Multi
extend(new(), map(self.row~Multi.0, |xa|))
    self.row is Some; self.row? is Multi
push(new(), self.column~Single.0)
    self.column is Some; self.column? is Single
push(new(), self.row~Single.0)
    self.row is Some; self.row? is Single
return new()
