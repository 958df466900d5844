"""Edits that change no behaviour (first batch: config, data, regional parameters)."""
C = "mimosa/common/"
PC = C + "config/parseconfig.py"
ND = C + "config/utils/nested_dict.py"
PA = C + "config/utils/parsers.py"
UN = C + "units.py"
DS = C + "data/datastore.py"
DU = C + "data/utils.py"
RM = C + "regional_params/main.py"
RR = C + "regional_params/region_mappers.py"
RC = C + "regional_params/regional_param_container.py"
IP = "mimosa/concrete_model/instantiate_params.py"
SM = "mimosa/concrete_model/simulation_mode/"

SPECS = {}

SPECS["pc-traverse-iterative"] = [(PC, '''    def _do_recursive_traverse(curr_keys, subset):
        for key, node in subset.items():
            keys = list(curr_keys) + [key]
            if leaf_criterium(node):
                leaf_function(keys, node)
            else:
                _do_recursive_traverse(keys, node)

    _do_recursive_traverse([], dict_to_traverse)
''', '''    def visit(path, branch):
        for key in branch:
            node = branch[key]
            node_path = [*path, key]
            if not leaf_criterium(node):
                visit(node_path, node)
                continue
            leaf_function(node_path, node)

    visit([], dict_to_traverse)
''')]

SPECS["pc-traverse-stack"] = [(PC, '''    def _do_recursive_traverse(curr_keys, subset):
        for key, node in subset.items():
            keys = list(curr_keys) + [key]
            if leaf_criterium(node):
                leaf_function(keys, node)
            else:
                _do_recursive_traverse(keys, node)

    _do_recursive_traverse([], dict_to_traverse)
''', '''    todo = [([key], node) for key, node in dict_to_traverse.items()]
    while todo:
        keys, node = todo.pop(0)
        if leaf_criterium(node):
            leaf_function(keys, node)
        else:
            todo = [(keys + [key], child) for key, child in node.items()] + todo
''')]

SPECS["pc-obsolete-list"] = [(PC, '''    num_obsolete = 0
    for key in set(keys_user) - set(keys_parsed):
        num_obsolete += 1
        print(f"Obsolete key: {' - '.join(map(str, key))}")
    if num_obsolete > 0:
        raise RuntimeWarning("Some config parameters are obsolete.")
''', '''    obsolete_keys = [key for key in keys_user if key not in keys_parsed]
    for key in obsolete_keys:
        print("Obsolete key: {}".format(" - ".join(str(part) for part in key)))
    if obsolete_keys:
        raise RuntimeWarning("Some config parameters are obsolete.")
''')]

SPECS["pc-leaf-criterium"] = [(PC, '''        try:
            parser_type = get_nested(parser_tree, keys).type
        except AttributeError:
            parser_type = None
        except KeyError:
            # Unknown key: report it, also if it contains an empty dictionary
            return True
        if isinstance(node, dict) and parser_type not in ["dict", "datasource"]:
            return False
        return True
''', '''        try:
            entry = get_nested(parser_tree, keys)
        except KeyError:
            # Unknown key: report it, also if it contains an empty dictionary
            return True
        parser_type = getattr(entry, "type", None)
        return not isinstance(node, dict) or parser_type in ("dict", "datasource")
''')]

SPECS["pc-obsolete-extracted"] = [(PC, '''def check_obsolete_params(user_yaml, parsed_params, parser_tree):

    leaf_criterium = create_leaf_criterium(parser_tree)

    # Compare the key paths and not the joined keys, since a key can itself contain " - "
    keys_user = set(flatten(user_yaml, leaf_criterium, join_keys=tuple))
    keys_parsed = set(flatten(parsed_params, leaf_criterium, join_keys=tuple))
''', '''def _key_paths(params, leaf_criterium):
    return set(flatten(params, leaf_criterium, join_keys=tuple).keys())


def check_obsolete_params(user_yaml, parsed_params, parser_tree):

    leaf_criterium = create_leaf_criterium(parser_tree)

    # Compare the key paths and not the joined keys, since a key can itself contain " - "
    keys_user = _key_paths(user_yaml, leaf_criterium)
    keys_parsed = _key_paths(parsed_params, leaf_criterium)
''')]

SPECS["pc-substitute"] = [(PC, '''    def substitute(match):
        try:
            other_value = get_nested(params, match.group(1).split(" - "))
        except (KeyError, TypeError):
            other_value = None
        if other_value is None or isinstance(other_value, dict):
            # Not a reference to a parameter value
            return match.group(0)
        return str(other_value)

    def leaf_function(keys, node):
        if not isinstance(node, str):
            return
        set_nested(params, keys, re.sub(r"\\{([\\w -]+)\\}", substitute, node))
''', '''    reference = re.compile(r"\\{([\\w -]+)\\}")

    def lookup(name):
        try:
            return get_nested(params, name.split(" - "))
        except (KeyError, TypeError):
            return None

    def substitute(match):
        other_value = lookup(match[1])
        is_value = other_value is not None and not isinstance(other_value, dict)
        return str(other_value) if is_value else match[0]

    def leaf_function(keys, node):
        if isinstance(node, str):
            replaced = reference.sub(substitute, node)
            if replaced != node:
                set_nested(params, keys, replaced)
''')]

SPECS["nd-setdefault"] = [(ND, '''    for key in keys:
        if key not in dictionary and create:
            dictionary[key] = {}
        dictionary = dictionary[key]
    return dictionary
''', '''    node = dictionary
    for key in keys:
        if create:
            node = node.setdefault(key, {})
        else:
            node = node[key]
    return node
'''), (ND, '''    dictionary = get_nested(dictionary, keys[:-1], True)
    dictionary[keys[-1]] = value
''', '''    *parents, last = keys
    get_nested(dictionary, parents, create=True)[last] = value
''')]

SPECS["nd-flatten-return"] = [(ND, '''    flattened_dict = {}

    leaf_criterium_default = lambda keys, node: not isinstance(node, dict)

    if leaf_criterium is None:
        leaf_criterium = leaf_criterium_default

    def _recursive_traverse(curr_keys, subset):
        for key, node in subset.items():
            keys = list(curr_keys) + [key]
            if leaf_criterium(keys, node):
                flattened_dict[join_keys(keys)] = node
            else:
                _recursive_traverse(keys, node)

    _recursive_traverse([], joined_dict)

    return flattened_dict
''', '''    if leaf_criterium is None:

        def leaf_criterium(_keys, node):
            return not isinstance(node, dict)

    def _leaves(curr_keys, subset):
        for key, node in subset.items():
            keys = curr_keys + [key]
            if leaf_criterium(keys, node):
                yield keys, node
            else:
                yield from _leaves(keys, node)

    return {join_keys(keys): node for keys, node in _leaves([], joined_dict)}
''')]

SPECS["pa-check-false-decorator"] = [(PA, '''class StringParser(GeneralParser):
    """
    String value
    """

    def parse(self, value):
        if self.check_false(value):
            return False
        return str(value)
''', '''class StringParser(GeneralParser):
    """
    String value
    """

    def parse(self, value):
        return False if self.check_false(value) else str(value)
'''), (PA, '''    def parse(self, value):
        if self.check_false(value):
            return False

        if isinstance(value, dict):
            return value

        return str(value)
''', '''    def parse(self, value):
        if self.check_false(value):
            return False

        return value if isinstance(value, dict) else str(value)
'''), (PA, '''        if self.can_be_false and self.is_falsy(value):
            return True
        return False
''', '''        return bool(self.can_be_false and self.is_falsy(value))
'''), (PA, '''        if self.is_truthy(value):
            parsed_value = True
        elif self.is_falsy(value):
            parsed_value = False
        else:
            self.error(f"Value {value} can not be parsed to a valid boolean")
        return parsed_value
''', '''        if self.is_truthy(value):
            return True
        if self.is_falsy(value):
            return False
        self.error(f"Value {value} can not be parsed to a valid boolean")
''')]

SPECS["pa-bounds-helper"] = [(PA, '''        # Check if value within bounds
        if not self.min <= parsed_value <= self.max:
            self.error(
                f"Value {parsed_value} not within bounds ({self.min}, {self.max})"
            )
        return parsed_value
''', '''        self._check_bounds(parsed_value)
        return parsed_value

    def _check_bounds(self, parsed_value):
        within_bounds = parsed_value >= self.min and parsed_value <= self.max
        if not within_bounds:
            self.error(
                "Value {} not within bounds ({}, {})".format(
                    parsed_value, self.min, self.max
                )
            )
'''), (PA, '''        try:
            parsed_value = self.num_type_fct(value)
        except ValueError:
            self.error(
                f"Value {value} can not be parsed to a {self.num_type_fct.__name__}"
            )
''', '''        num_type = self.num_type_fct
        try:
            parsed_value = num_type(value)
        except ValueError:
            self.error(f"Value {value} can not be parsed to a {num_type.__name__}")
''')]

SPECS["pa-enum"] = [(PA, '''        if self.check_false(value):
            return False
        if value not in self.allowed_values:
            self.error(f"Value {value} not in allowed values {self.allowed_values}")
        return value
''', '''        if self.check_false(value):
            return False
        if value in self.allowed_values:
            return value
        self.error(f"Value {value} not in allowed values {self.allowed_values}")
''')]

SPECS["pa-list-dict"] = [(PA, '''        if isinstance(value, list):
            parsed_list = [
                self.parse_if_not_none(self.values_parser, list_value)
                for list_value in value
            ]
            return parsed_list
        elif value is None:
            return []
        self.error(f"Cannot parse list {value}")
''', '''        if value is None:
            return []
        if not isinstance(value, list):
            self.error(f"Cannot parse list {value}")
        parsed_list = []
        for list_value in value:
            parsed_list.append(self.parse_if_not_none(self.values_parser, list_value))
        return parsed_list
'''), (PA, '''        if isinstance(value, dict):
            parsed_dict = {
                self.parse_if_not_none(
                    self.keys_parser, dict_key
                ): self.parse_if_not_none(self.values_parser, dict_value)
                for dict_key, dict_value in value.items()
            }
            return parsed_dict
        elif value is None:
            return {}
        self.error(f"Cannot parse dictionary {value}")
''', '''        if value is None:
            return {}
        if not isinstance(value, dict):
            self.error(f"Cannot parse dictionary {value}")
        parsed_dict = {}
        for key, entry in value.items():
            parsed_key = self.parse_if_not_none(self.keys_parser, key)
            parsed_dict[parsed_key] = self.parse_if_not_none(self.values_parser, entry)
        return parsed_dict
''')]

SPECS["pa-optional-parser"] = [(PA, '''        self.values_parser = (
            PARSER_FACTORY.create_parser(node["values"], quant)
            if "values" in node
            else None
        )
''', '''        self.values_parser = self.create_optional_parser(node, "values", quant)

    @staticmethod
    def create_optional_parser(node, key, quant):
        if key not in node:
            return None
        return PARSER_FACTORY.create_parser(node[key], quant)
'''), (PA, '''        self.keys_parser = (
            PARSER_FACTORY.create_parser(node["keys"], quant)
            if "keys" in node
            else None
        )
''', '''        self.keys_parser = self.create_optional_parser(node, "keys", quant)
'''), (PA, '''            for key in ["variable", "unit", "scenario", "model", "file"]:
                if key not in parsed_dict:
                    self.error(f"Key {key} not found in datasource {value}")

            return parsed_dict
''', '''            missing = [key for key in self.REQUIRED_KEYS if key not in parsed_dict]
            if missing:
                self.error(f"Key {missing[0]} not found in datasource {value}")

            return parsed_dict
'''), (PA, '''    Data source for a variable. It's a dictionary with the keys `variable`, `unit`, `scenario`, `model`, and `file`.
    """
''', '''    Data source for a variable. It's a dictionary with the keys `variable`, `unit`, `scenario`, `model`, and `file`.
    """

    REQUIRED_KEYS = ("variable", "unit", "scenario", "model", "file")
''')]

SPECS["pa-factory-get"] = [(PA, '''        typename = node["type"]
        try:
            parser = self.parsers[typename]
        except KeyError:
            raise KeyError("Cannot find parser of type {}".format(typename))
        return parser(node, quant)
''', '''        typename = node["type"]
        if typename not in self.parsers:
            raise KeyError(f"Cannot find parser of type {typename}")
        parser_class = self.parsers[typename]
        return parser_class(node, quant)
'''), (PA, '''PARSER_FACTORY.register_parser("float", FloatParser)
PARSER_FACTORY.register_parser("int", IntParser)
PARSER_FACTORY.register_parser("bool", BoolParser)
PARSER_FACTORY.register_parser("str", StringParser)
PARSER_FACTORY.register_parser("enum", EnumParser)
PARSER_FACTORY.register_parser("quantity", QuantityParser)
PARSER_FACTORY.register_parser("list", ListParser)
PARSER_FACTORY.register_parser("dict", DictParser)
PARSER_FACTORY.register_parser("datasource", DatasourceParser)
PARSER_FACTORY.register_parser("filepath", FilepathParser)
PARSER_FACTORY.register_parser("str_or_plain_dict", StringOrPlainDictParser)
''', '''for _typename, _parser in {
    "float": FloatParser,
    "int": IntParser,
    "bool": BoolParser,
    "str": StringParser,
    "enum": EnumParser,
    "quantity": QuantityParser,
    "list": ListParser,
    "dict": DictParser,
    "datasource": DatasourceParser,
    "filepath": FilepathParser,
    "str_or_plain_dict": StringOrPlainDictParser,
}.items():
    PARSER_FACTORY.register_parser(_typename, _parser)
''')]

SPECS["pa-quantity-tuple"] = [(PA, '''        try:
            parsed = self.quant(value, self.unit, can_be_false=False)
        except (
            DimensionalityError,
            DefinitionSyntaxError,
            OffsetUnitCalculusError,
            UndefinedUnitError,
        ):
            self.error(f"Cannot parse quantity `{value}` to unit `{self.unit}`")
        return value  # Returns''', '''        try:
            self.quant(value, self.unit, can_be_false=False)
        except UNIT_ERRORS:
            self.error(f"Cannot parse quantity `{value}` to unit `{self.unit}`")
        return value  # Returns'''), (PA, '''class GeneralParser(ABC):
''', '''UNIT_ERRORS = (
    DimensionalityError,
    DefinitionSyntaxError,
    OffsetUnitCalculusError,
    UndefinedUnitError,
)


class GeneralParser(ABC):
''')]

SPECS["pa-get-lookup"] = [(PA, '''        try:
            to_be_parsed = get_nested(user_config, keys)
        except KeyError:
            # If it is not defined in the user config file, use the default value
            to_be_parsed = self.default
        return self.parse(to_be_parsed)
''', '''        return self.parse(self._lookup(user_config, keys))

    def _lookup(self, user_config, keys):
        try:
            return get_nested(user_config, keys)
        except KeyError:
            # If it is not defined in the user config file, use the default value
            return self.default
''')]

SPECS["un-call"] = [(UN, '''        if len(args) not in [2, 3]:  # If number of arguments is not 2 or 3
            raise RuntimeError("Incorrect number of arguments to Q")

        if args[0] is False and can_be_false:
            # Sometimes a quantity (like carbon budget) can be skipped by setting to False
            return False

        # First parse target units with default units
        target_unit = self._parse_default_units(self._custom_replace(args[-1]))

        if len(args) == 2:
            string = self._custom_replace(str(args[0]))
            quantity = self._pint_registry.Quantity(string)
        elif len(args) == 3:
            value = args[0]
            unit = self._custom_replace(str(args[1]))
            quantity = self._pint_registry.Quantity(value, unit)
        else:
            raise Exception("Wrong usage of Quant function")

        if only_magnitude:
            return quantity.to(target_unit).magnitude
        return quantity.to(target_unit)
''', '''        if len(args) != 2 and len(args) != 3:
            raise RuntimeError("Incorrect number of arguments to Q")

        *source, to_unit = args
        if can_be_false and source[0] is False:
            # Sometimes a quantity (like carbon budget) can be skipped by setting to False
            return False

        quantity = self._create_quantity(*source)
        # Parse target units with default units
        converted = quantity.to(self._parse_default_units(self._custom_replace(to_unit)))

        return converted.magnitude if only_magnitude else converted

    def _create_quantity(self, value, unit=None):
        if unit is None:
            return self._pint_registry.Quantity(self._custom_replace(str(value)))
        return self._pint_registry.Quantity(value, self._custom_replace(str(unit)))
''')]

SPECS["un-replace-table"] = [(UN, '''        for key, value in self.default_units.items():
            # Add brackets () to avoid order of operation problems with compound units
            units = units.replace(key, f"({value})")
        # Bugfix for a Pint bug where aliases are treated wrongly
        units = units.replace("year", "yr")
        return units

    @staticmethod
    def _custom_replace(units):
        return units.replace("US$", "USD").replace("t CO2", "tCO2")
''', '''        for key in self.default_units:
            # Add brackets () to avoid order of operation problems with compound units
            units = units.replace(key, "(" + self.default_units[key] + ")")
        # Bugfix for a Pint bug where aliases are treated wrongly
        return units.replace("year", "yr")

    REPLACEMENTS = (("US$", "USD"), ("t CO2", "tCO2"))

    @classmethod
    def _custom_replace(cls, units):
        for written, registered in cls.REPLACEMENTS:
            units = units.replace(written, registered)
        return units
''')]

SPECS["ds-query"] = [(DS, '''            selection = database.loc[
                (database["model"] == model)
                & (database["scenario"] == scenario)
                & (database["region"] == (region[:-1] if region[-1] == "#" else region))
                & (database["variable"] == variablename)
            ]
''', '''            region_in_file = region[:-1] if region.endswith("#") else region
            is_match = (
                (database["variable"] == variablename)
                & (database["region"] == region_in_file)
                & (database["scenario"] == scenario)
                & (database["model"] == model)
            )
            selection = database[is_match]
'''), (DS, '''            self.cached_data[filename][key] = {
                "years": selection.loc[:, "2010":].columns.values.astype(float),
                "values": selection.loc[:, "2010":].values[0],
                "unit": selection.iloc[0]["unit"],
            }
''', '''            timeseries = selection.loc[:, "2010":]
            self.cached_data[filename][key] = {
                "years": timeseries.columns.values.astype(float),
                "values": timeseries.values[0],
                "unit": selection["unit"].iloc[0],
            }
''')]

SPECS["ds-early-return"] = [(DS, '''        if filename not in DataStore.databases:
            database = pd.read_csv(full_path)
            database.columns = database.columns.str.lower()
            DataStore.databases[filename] = database
            self.cached_data[filename] = {}
''', '''        if filename in self.databases:
            return
        database = pd.read_csv(full_path)
        database.columns = [column.lower() for column in database.columns]
        self.databases[filename] = database
        self.cached_data[filename] = {}
'''), (DS, '''        regions = self.params["regions"]
        return {
            region: self._get_data(self.data_years, region, var_info)
            for region in regions
        }
''', '''        values = {}
        for region in self.params["regions"].keys():
            values[region] = self._get_data(self.data_years, region, var_info)
        return values
''')]

SPECS["ds-helpers"] = [(DS, '''        # 1. Get data from database
        years_values_unit = self._get_cached_data_from_database(var_info, region)
        years = years_values_unit["years"]
        values = years_values_unit["values"]
        unit = years_values_unit["unit"]

        if "unit" in var_info:
            quantity = quant(values, unit, var_info["unit"], only_magnitude=False)
            values = quantity.magnitude
            unit = quantity.units
''', '''        # 1. Get data from database
        years, values, unit = self._get_converted_data(var_info, region)
'''), (DS, '''    def interp_data(self, year, region, variable):
        values = self._data_values[variable][region]
        return np.interp(year, values.xvalues, values.yvalues)
''', '''    def _get_converted_data(self, var_info, region):
        cached = self._get_cached_data_from_database(var_info, region)
        years, values, unit = (cached[name] for name in ("years", "values", "unit"))
        if "unit" in var_info:
            quantity = quant(values, unit, var_info["unit"], only_magnitude=False)
            values, unit = quantity.magnitude, quantity.units
        return years, values, unit

    def interp_data(self, year, region, variable):
        data_values = self._data_values[variable][region]
        xvalues, yvalues = data_values.xvalues, data_values.yvalues
        return np.interp(year, xvalues, yvalues)
''')]

SPECS["ds-years"] = [(DS, '''        beginyear = self.params["time"]["start"]
        endyear = self.params["time"]["end"] + 50  # Make sure extrapolation goes well
        dt = self.params["time"]["dt"]
        self.data_years = np.arange(beginyear, endyear, dt)
''', '''        time = self.params["time"]
        margin = 50  # Make sure extrapolation goes well
        self.data_years = np.arange(time["start"], time["end"] + margin, time["dt"])
'''), (DS, '''        for var_name, var_info in params["input"]["variables"].items():
            self._select_database(var_info["file"])
            self._data_values[var_name] = self._create_data_values(var_info)
''', '''        variables = params["input"]["variables"]
        for var_name in variables:
            var_info = variables[var_name]
            self._select_database(var_info["file"])
            self._data_values[var_name] = self._create_data_values(var_info)
''')]

SPECS["du-extrapolate"] = [(DU, '''    became_negative = False

    # First get final change rate
    change_rate = (input_values[-1] - input_values[-2]) / (years[-1] - years[-2])
    minmax = np.maximum if change_rate > 0 else np.minimum

    t_prev = years[-1]
    val_prev = input_values[-1]

    new_values = []

    for t in extra_years:
        change = minmax(
            0.0, change_rate - change_rate * (t_prev - 2100.0) / stabilising_years
        )
        val = val_prev + change * (t - t_prev)
''', '''    # First get final change rate
    change_rate = (input_values[-1] - input_values[-2]) / (years[-1] - years[-2])
    if change_rate > 0:
        limit = np.maximum
    else:
        limit = np.minimum

    t_prev, val_prev = years[-1], input_values[-1]

    new_values = []

    for t in extra_years:
        years_since_2100 = t_prev - 2100.0
        change = limit(
            0.0, change_rate - change_rate * years_since_2100 / stabilising_years
        )
        val = val_prev + change * (t - t_prev)
'''), (DU, '''        val_prev = val
        t_prev = t

    if became_negative:
        print("Extrapolation became negative for", meta_info)
    return''', '''        t_prev, val_prev = t, val

    return''')]

SPECS["rm-get"] = [(RM, '''        # First check if parameter is set manually in config file
        try:
            value = self.params["regions"][region][category][paramname]
        except (KeyError, TypeError):
            value = self.categories[category].get(paramname, region)

        return value
''', '''        # First check if parameter is set manually in config file
        try:
            return self.params["regions"][region][category][paramname]
        except (KeyError, TypeError):
            return self.categories[category].get(paramname, region)
'''), (RM, '''            region_mappers[(regionstype1, regionstype2)] = mapper
            region_mappers[(regionstype2, regionstype1)] = mapper
''', '''            for pair in ((regionstype1, regionstype2), (regionstype2, regionstype1)):
                region_mappers[pair] = mapper
'''), (RM, '''        self.categories = {}
        for category, category_info in params["regional_parameter_files"].items():
            self.categories[category] = RegionalParamContainer(
                category_info["filename"],
                category_info["regionstype"],
                regiontype_output,
                self.region_mappers,
            )
''', '''        self.categories = {
            category: RegionalParamContainer(
                filename=info["filename"],
                regiontype_input=info["regionstype"],
                regiontype_output=regiontype_output,
                region_mappers=self.region_mappers,
            )
            for category, info in params["regional_parameter_files"].items()
        }
''')]

SPECS["rr-mapper"] = [(RR, '''        if (
            regiontype1 not in self.mapping.columns
            or regiontype2 not in self.mapping.columns
        ):
            raise KeyError(
''', '''        columns = self.mapping.columns
        if not (regiontype1 in columns and regiontype2 in columns):
            raise KeyError(
'''), (RR, '''        # Merge data with mapping region
        data_merged = data.merge(
            self.mapping[[regiontype_from, regiontype_to]],
            left_on=region_column,
            right_on=regiontype_from,
            how="inner",
        ).drop(columns=["region", regiontype_from])
''', '''        # Merge data with mapping region
        mapping = self.mapping[[regiontype_from, regiontype_to]]
        data_merged = pd.merge(
            data,
            mapping,
            left_on=region_column,
            right_on=regiontype_from,
            how="inner",
        )
        data_merged = data_merged.drop(columns=["region", regiontype_from])
'''), (RR, '''        aggregation_methods = {
            col_name: "mean" if pd.api.types.is_numeric_dtype(column) else "first"
            for col_name, column in data_merged.items()
            if col_name != regiontype_to
        }
''', '''        aggregation_methods = {}
        for col_name in data_merged.columns:
            if col_name == regiontype_to:
                continue
            is_numeric = pd.api.types.is_numeric_dtype(data_merged[col_name])
            aggregation_methods[col_name] = "mean" if is_numeric else "first"
''')]

SPECS["rc-container"] = [(RC, '''        if regiontype_input == regiontype_output:
            self.data = data_raw.set_index("region")
        else:
            # Transform the input regional definition to required output regional definitions
            try:
                region_mapper = region_mappers[(regiontype_input, regiontype_output)]
            except KeyError as exc:
                raise KeyError(
                    f"Region mapper missing between {regiontype_input} and {regiontype_output}"
                ) from exc

            self.data = region_mapper.map_regions(
                data_raw, regiontype_input, regiontype_output
            ).set_index("region")
''', '''        if regiontype_input != regiontype_output:
            # Transform the input regional definition to required output regional definitions
            region_mapper = self._find_mapper(
                region_mappers, regiontype_input, regiontype_output
            )
            data_raw = region_mapper.map_regions(
                data_raw, regiontype_input, regiontype_output
            )
        self.data = data_raw.set_index("region")

    @staticmethod
    def _find_mapper(region_mappers, regiontype_input, regiontype_output):
        key = (regiontype_input, regiontype_output)
        if key not in region_mappers:
            raise KeyError(
                f"Region mapper missing between {regiontype_input} and {regiontype_output}"
            )
        return region_mappers[key]
'''), (RC, '''        value = self.data.loc[region, paramname]
        try:
            return float(value)
        except ValueError:
            # If unable to convert to float:
            return value
''', '''        row = self.data.loc[region]
        value = row[paramname]
        try:
            value = float(value)
        except ValueError:
            # Unable to convert to float
            pass
        return value
''')]

SPECS["rc-at"] = [(RC, '''        value = self.data.loc[region, paramname]
''', '''        value = self.data.at[region, paramname]
''')]

SPECS["ip-split-main"] = [(IP, '''            if callable(parameter.doc):
                parameter_doc_str = parameter.doc(params)
            else:
                parameter_doc_str = str(parameter.doc)

            ### Normal parameter, get directly from parameter dictionary
            if parameter_doc_str.startswith("::"):
                keys = parameter_doc_str.split("::")[1].split(".")
                value = get_nested(params, keys)
                # Check type of parameter
                parser = get_nested(self.param_parser_tree, keys)
                if parser.type == "quantity":
                    value = quant(value, parser.unit)
                parameter_mapping[parameter.name] = V(value)
''', '''            doc = parameter.doc
            parameter_doc_str = doc(params) if callable(doc) else str(doc)

            ### Normal parameter, get directly from parameter dictionary
            if parameter_doc_str.startswith("::"):
                parameter_mapping[parameter.name] = V(
                    self._get_scalar_value(parameter_doc_str[2:].split("."))
                )
'''), (IP, '''    def _set_instance_data_coacch(self, instance_data) -> None:
''', '''    def _get_scalar_value(self, keys):
        value = get_nested(self.params, keys)
        # Check type of parameter
        parser = get_nested(self.param_parser_tree, keys)
        if parser.type == "quantity":
            return quant(value, parser.unit)
        return value

    def _set_instance_data_coacch(self, instance_data) -> None:
'''), (IP, '''                param_category, param_name = parameter_doc_str.split("::")[1].split(
                    ".", 1
                )
                parameter_mapping[parameter.name] = self.regional_param_store.get(
                    param_category, param_name
                )
''', '''                reference = parameter_doc_str[len("regional::") :]
                param_category, _, param_name = reference.partition(".")
                regional_values = self.regional_param_store.get(
                    param_category, param_name
                )
                parameter_mapping[parameter.name] = regional_values
''')]

SPECS["ip-elif-loops"] = [(IP, '''                parameter_mapping[parameter.name] = {
                    (t, r): self.data_store.interp_data(
                        self.abstract_model.year(t), r, var_name
                    )
                    for t in range(num_years)
                    for r in params["regions"].keys()
                }
''', '''                data_values = {}
                for r in params["regions"]:
                    for t in range(num_years):
                        year = self.abstract_model.year(t)
                        data_values[t, r] = self.data_store.interp_data(
                            year, r, var_name
                        )
                parameter_mapping[parameter.name] = data_values
'''), (IP, '''            ### Regional parameter, get from regional parameter store
            if parameter_doc''', '''            ### Regional parameter, get from regional parameter store
            elif parameter_doc'''), (IP, '''            ### Time and regional dependent parameter, from data store
            if parameter_doc''', '''            ### Time and regional dependent parameter, from data store
            elif parameter_doc''')]

SPECS["ip-manual"] = [(IP, '''        parameter_mapping_manual = {
            "beginyear": V(t_start),
            "dt": V(dt),
            "tf": V(num_years - 1),
            "t": V(range(num_years)),
            "year2100": V(year2100),
            "regions": V(params["regions"].keys()),
        }

        parameter_mapping.update(parameter_mapping_manual)

        instance_data[None].update(parameter_mapping)

''', '''        time_indices = list(range(num_years))
        manual_values = dict(
            beginyear=t_start,
            dt=dt,
            tf=time_indices[-1],
            t=time_indices,
            year2100=year2100,
            regions=list(params["regions"]),
        )
        for name, manual_value in manual_values.items():
            parameter_mapping[name] = V(manual_value)

        for name, entry in parameter_mapping.items():
            instance_data[None][name] = entry

'''), (IP, '''        num_years = int(np.ceil((t_end - t_start) / dt)) + 1
        self.abstract_model.year = lambda t: t_start + t * dt
        year2100 = int((2100 - t_start) / dt)
''', '''        num_periods = int(np.ceil((t_end - t_start) / dt))
        num_years = num_periods + 1

        def year(t):
            return t_start + dt * t

        self.abstract_model.year = year
        year2100 = int((2100 - t_start) / dt)
''')]

SPECS["ip-coacch"] = [(IP, '''        combined_slr_nonslr_damages = self.params["economics"]["damages"][
            "coacch_combined_slr_nonslr_damages"
        ]
        slr_withadapt = self.params["economics"]["damages"]["coacch_slr_withadapt"]
        adapt_prfx = "Ad" if slr_withadapt else "NoAd"

        V_region = lambda x: {region: x for region in self.params["regions"]}
''', '''        damage_params = self.params["economics"]["damages"]
        combined_slr_nonslr_damages = damage_params[
            "coacch_combined_slr_nonslr_damages"
        ]
        slr_withadapt = damage_params["coacch_slr_withadapt"]
        if slr_withadapt:
            adapt_prfx = "Ad"
        else:
            adapt_prfx = "NoAd"

        V_region = lambda x: dict.fromkeys(self.params["regions"], x)
'''), (IP, '''        try:
            damage_quantile = self.params["economics"]["damages"]["quantile"]
        except KeyError:
            damage_quantile = 0.5
''', '''        damage_quantile = self.params["economics"]["damages"].get("quantile", 0.5)
''')]

SPECS["sm-single-factory"] = [(SM + "set_constraints.py", '''    if has_time_and_region_dim(getattr(m, variable_name)):
        extra_constraints = _extra_regional_constraint(variable_name, interp_data, eps)
    else:
        extra_constraints = _extra_global_constraint(variable_name, interp_data, eps)

    return extra_constraints
''', '''    is_regional = has_time_and_region_dim(getattr(m, variable_name))
    create = _extra_regional_constraint if is_regional else _extra_global_constraint
    return create(variable_name, interp_data, eps)
'''), (SM + "set_constraints.py", '''    return [
        RegionalConstraint(
            lambda m, t, r: getattr(m, variable_name)[t, r]
            - interp_data.get(r, m.year(t))
            <= eps
            # if m.year(t) <= interp_data.maxyear
            # else Constraint.Skip
        ),
        RegionalConstraint(
            lambda m, t, r: getattr(m, variable_name)[t, r]
            - interp_data.get(r, m.year(t))
            >= -eps
            # if m.year(t) <= interp_data.maxyear
            # else Constraint.Skip
        ),
    ]
''', '''    def difference(m, t, r):
        return getattr(m, variable_name)[t, r] - interp_data.get(r, m.year(t))

    def upper(m, t, r):
        return difference(m, t, r) <= eps

    def lower(m, t, r):
        return -eps <= difference(m, t, r)

    return [RegionalConstraint(upper), RegionalConstraint(lower)]
'''), (SM + "set_constraints.py", '''    for variable_name, filepath_or_data in params["simulation"][
        "constraint_variables"
    ].items():
        interp_data = _get_interp_data(filepath_or_data, data_cache, variable_name)
        extra_constraints.extend(_fixed_data_constraint(m, variable_name, interp_data))
''', '''    constraint_variables = params["simulation"]["constraint_variables"]
    for variable_name, filepath_or_data in constraint_variables.items():
        interp_data = _get_interp_data(filepath_or_data, data_cache, variable_name)
        extra_constraints += _fixed_data_constraint(m, variable_name, interp_data)
''')]

SPECS["sm-read"] = [(SM + "set_constraints.py", '''    filepath = filepath_or_data
    # 1. Read datafile
    if filepath not in data_cache:
        data_cache[filepath] = read_csv(filepath)
    imported_data = data_cache[filepath]

    # 2. Select data
    fixed_data = imported_data[imported_data["Variable"] == variable_name]
    fixed_data = fixed_data.drop(
        columns=["Variable", "Unit"], errors="ignore"
    ).set_index("Region")
    interp_data = InterpolatingData(fixed_data)
    return interp_data
''', '''    # 1. Read datafile
    try:
        imported_data = data_cache[filepath_or_data]
    except KeyError:
        imported_data = data_cache[filepath_or_data] = read_csv(filepath_or_data)

    # 2. Select data
    is_variable = imported_data["Variable"] == variable_name
    fixed_data = imported_data.loc[is_variable].set_index("Region")
    fixed_data = fixed_data.drop(columns=["Variable", "Unit"], errors="ignore")
    return InterpolatingData(fixed_data)
'''), (SM + "utils.py", '''        self.maxyear = float(data.columns[-1])
        self.region_interp_fct = {
            region: self.interp(row) for region, row in data.iterrows()
        }
''', '''        self.maxyear = float(data.columns[-1])
        self.region_interp_fct = {}
        for region, row in data.iterrows():
            self.region_interp_fct[region] = self.interp(row)
'''), (SM + "utils.py", '''        value = self.region_interp_fct[region](year)
        if len(value.shape) == 0:
            return float(value)
        return value
''', '''        interp_fct = self.region_interp_fct[region]
        value = interp_fct(year)
        return float(value) if value.ndim == 0 else value
'''), (SM + "utils.py", '''        if len(paths) != 1:
            logger.warning(
                "Warning: matched {} files instead of 1 for file pattern {}".format(
                    len(paths), path
                )
            )
        path = glob(path)[0]
''', '''        if len(paths) != 1:
            logger.warning(
                f"Warning: matched {len(paths)} files instead of 1 for file pattern {path}"
            )
        path = paths[0]
''')]

SPECS["sm-deactivate"] = [(SM + "deactivate_constraints.py", '''    if params["simulation"]["deactivated_constraints"] is not None:
        for constraint_name in params["simulation"]["deactivated_constraints"]:
            constraint = getattr(m, f"constraint_{constraint_name}")
            if constraint is not None:
                constraint.deactivate()
''', '''    constraint_names = params["simulation"]["deactivated_constraints"]
    if constraint_names is None:
        return
    for name in constraint_names:
        constraint = getattr(m, "constraint_" + name)
        if constraint is None:
            continue
        constraint.deactivate()
''')]
