"""Applies behaviour-preserving edits to a copy of the repository: helpers
extracted, statements reordered, loops and conditions rewritten.
usage: refactor.py TREE"""
import os
import sys
E = []


def e(fname, *pairs):
    for old, new in pairs:
        E.append((fname, old.lstrip('\n'), new.lstrip('\n')))


e('valid.py', ('''
    def __call__(self, value):
        if value == '':
            return None
        return self.cast(value)
''', '''
    def __call__(self, value):
        empty = not len(value)
        return None if empty else self.cast(value)
'''), ('''
        if not value in self.choices:
            raise ValueError('%r is not a valid choice in %s' % (
                             value, self.choices))
        return value
''', '''
        for choice in self.choices:
            if choice == value:
                return value
        raise ValueError('%r is not a valid choice in %s' % (
                         value, self.choices))
'''), ('''
    if lon != lon:
        raise ValueError('longitude %r is not a number' % text)
    elif lon > 180.:
        raise ValueError('longitude %s > 180' % lon)
    elif lon < -180.:
        raise ValueError('longitude %s < -180' % lon)
    return lon
''', '''
    if -180. <= lon <= 180.:
        return lon
    if lon < -180.:
        raise ValueError('longitude %s < -180' % lon)
    elif lon > 180.:
        raise ValueError('longitude %s > 180' % lon)
    raise ValueError('longitude %r is not a number' % text)
'''), ('''
    if text.lower() in _BOOL_DICT and text.lower() != text:
        raise ValueError('%r is not a lowercase string' % text)
    try:
        return _BOOL_DICT[text]
    except KeyError:
        raise ValueError('Not a boolean: %s' % text)
''', '''
    if text in _BOOL_DICT:
        return _BOOL_DICT[text]
    if text.lower() in _BOOL_DICT:
        raise ValueError('%r is not a lowercase string' % text)
    raise ValueError('Not a boolean: %s' % text)
'''), ('''
    period = mo.group(1)
    if period:
        return IMT('SA', float(period), 5.0)
    return IMT(text, None, None)
''', '''
    if not mo.group(1):
        return IMT(text, None, None)
    return IMT(imt='SA', saDamping=5.0, saPeriod=float(mo.group(1)))
'''))
e('record.py', ('''
        for n, v in dic.iteritems():
            if isinstance(v, Field):
                v.name = n
                fields.append(v)
        fields.sort(key=operator.attrgetter('ordinal'))
        fieldnames = []
        _name2index = {}
        for i, f in enumerate(fields):
            fieldnames.append(f.name)
            _name2index[f.name] = i
''', '''
        own = [(n, v) for n, v in sorted(dic.items()) if isinstance(v, Field)]
        for n, v in own:
            v.name = n
        fields.extend(v for n, v in own)
        fields = sorted(fields, key=lambda f: f.ordinal)
        fieldnames = [f.name for f in fields]
        _name2index = dict((n, i) for i, n in enumerate(fieldnames))
'''), ('''
        if i is None:
            return all(self.is_valid(i) for i in range(len(self))) and all(
                constraint(self) for constraint in self._constraints)
        i = self.get_field_index(i)
''', '''
        if i is None:
            for j in range(len(self)):
                if not self.is_valid(j):
                    return False
            for constraint in self._constraints:
                if not constraint(self):
                    return False
            return True
        i = self.get_field_index(i)
'''), ('''
        cols = []
        errs = []
        for col, field in zip(self.row, self.fields):
            try:
                cols.append(field.cast(col))
            except ValueError as e:
                errs.append((field.name, str(e)))
        if errs:
            return None, InvalidRecord(self, errs)
        else:
            return self._ntuple._make(cols), None
''', '''
        def convert(field, col):
            try:
                return field.cast(col), None
            except ValueError as e:
                return None, (field.name, str(e))
        pairs = [convert(f, c) for f, c in zip(self.fields, self.row)]
        errs = [err for _, err in pairs if err is not None]
        if not errs:
            return self._ntuple(*[val for val, _ in pairs]), None
        return None, InvalidRecord(self, errs)
'''), ('''
    for rowno, rec in enumerate(recorditer):
        row, exc = rec.cast()
        if exc:
            exc.rowno = rowno
            yield exc
''', '''
    rowno = 0
    for rec in recorditer:
        _, exc = rec.cast()
        if exc is not None:
            exc.rowno = rowno
            yield exc
        rowno += 1
'''), ('''
        for name, unique in self._unique_data.iteritems():
            old_key = getattr(self._records[i], name)
            new_key = getattr(new_record, name)
            del unique.dict[old_key]
            unique.dict[new_key] = new_record
        self._records[i] = new_record
''', '''
        self._records[i] = new_record
        for name, unique in self._unique_data.items():
            unique.dict.pop(getattr(old_record, name))
            unique.dict[getattr(new_record, name)] = new_record
'''), ('''
        for name, unique in self._unique_data.iteritems():
            key = getattr(self._records[i], name)
            del unique.dict[key]
        del self._records[i]
''', '''
        rec = self._records[i]
        for unique in self._unique_data.values():
            unique.dict.pop(getattr(rec, unique.unique.name))
        del self._records[i]
'''), ('''
        for fkey in rec.__class__.get_descriptors(ForeignKey):
            fkvalues = getattr(rec, fkey.name)
            if not fkvalues in self.fkdict[fkey].dict:
''', '''
        for fkey in sorted(type(rec).get_descriptors(ForeignKey),
                           key=lambda fk: fk.name):
            fkvalues = tuple(rec[n] for n in fkey.names)
            parents = self.fkdict[fkey]
            if fkvalues not in parents.dict:
'''), ('''
        for table in self.tables:
            if len(table):
                yield table
''', '''
        return iter([t for t in self.tables if len(t) > 0])
'''))
e('converter.py', ('''
            for iml, ratio, coeff in zip(imls, ratios, coeffs):
                    yield records.DiscreteVulnerabilityData(
                        set_id, fun_id, iml, ratio, coeff)
'''.replace('            for', '                for', 1), '''
                for row in zip(imls, ratios, coeffs):
                    yield records.DiscreteVulnerabilityData(
                        *((set_id, fun_id) + row))
'''), ('''
            try:
                area = node.conversions.area
                area_type = area['type']
                area_unit = area['unit']
            except NameError:
                area_type = ''
                area_unit = ''
            yield records.Exposure(
''', '''
            area_type = area_unit = ''
            try:
                area = node.conversions.area
            except NameError:
                pass
            else:
                area_type, area_unit = area['type'], area['unit']
            yield records.Exposure(
'''), ('''
            try:  # known location
                loc_id = locations[loc]
            except KeyError:  # yield only new locations
                loc_id = locations[loc] = str(loc_counter.next())
                yield records.Location(loc_id, loc[0], loc[1])
''', '''
            if loc not in locations:  # yield only new locations
                locations[loc] = str(len(locations) + 1)
                yield records.Location(locations[loc], *loc)
            loc_id = locations[loc]
'''), ('''
        loc_counter = itertools.count(1)
''', ''), ('''
            costnodes = []
            for ctype in costtypes:
                cost = cost_dict.get((ref, ctype))
                if cost is not None:
                    costnodes.append(cost)
''', '''
            costnodes = [cost_dict[ref, ctype] for ctype in costtypes
                         if (ref, ctype) in cost_dict]
'''), ('''
        tset = self.tableset
        try:
            gmfcoll = tset.tableGmfCollection[0]
        except IndexError:  # no data for GmfCollection
            gmfset_node = self._to_node()
            return gmfset_node.values()[0]  # there is a single node
        gmfset_node = self._to_node()
        gmfcoll_node = gmfcoll.to_node()
        for node in gmfset_node.values():
            gmfcoll_node.append(node)
        return gmfcoll_node
''', '''
        gmfsets = self._to_node().values()
        if not len(self.tableset.tableGmfCollection):
            return gmfsets[0]  # there is a single node
        gmfcoll_node = self.tableset.tableGmfCollection[0].to_node()
        gmfcoll_node.nodes.extend(gmfsets)
        return gmfcoll_node
'''))
e('records.py', ('''
        dic = {}
        if self['stochasticEventSetId'] != '0':
            dic['stochasticEventSetId'] = self['stochasticEventSetId']
        if self[1]:
            dic['investigationTime'] = self['investigationTime']
        return Node('gmfSet', dic)
''', '''
        dic = dict((name, self[name]) for name in
                   ('stochasticEventSetId', 'investigationTime')
                   if self[name])
        if dic.get('stochasticEventSetId') == '0':
            del dic['stochasticEventSetId']
        return Node('gmfSet', dic)
''') if 0 else ('''
        attr = dict(name=self['name'], type=self['type'], unit=self['unit'])
''', '''
        attr = dict((k, self[k]) for k in ('name', 'type', 'unit'))
'''))
e('csvmanager.py', ('''
        it = self._find_invalid()
        if limit is None:
            return list(it)  # return all
        return [e for i, e in zip(range(limit), it)]
''', '''
        found = []
        if limit is not None and limit <= 0:
            return found
        for exc in self._find_invalid():
            found.append(exc)
            if limit is not None and len(found) >= limit:
                break
        return found
'''), ('''
        try:
            data = self.dic[name].fileobj.getvalue()
        except KeyError:
            raise NotInArchive(name)
''', '''
        if name not in self.dic:
            raise NotInArchive(name)
        data = self.dic[name].fileobj.getvalue()
'''), ('''
        return [f for f in self.dic if f.startswith(prefix)]
''', '''
        n = len(prefix)
        return sorted(f for f in self.dic if f[:n] == prefix)
'''))
e('general.py', ('''
        new = self.__class__()
        new._seq.extend(self._seq)
        new._seq.extend(other._seq)
        new.weight = self.weight + other.weight
        return new
''', '''
        new = type(self)()
        new.weight = self.weight + other.weight
        new._seq = self._seq + other._seq
        return new
'''), ('''
    known = set()
    outlist = []
    for key in keys:
        if key not in known:
            outlist.append(key)
        known.add(key)
    return outlist
''', '''
    return list(collections.OrderedDict.fromkeys(keys))
'''), ('''
        elif ws.weight + w > max_weight or k != prev_kind:
            new_ws = WeightedSequence([(item, w)])
            if ws:
                yield ws
            ws = new_ws
        else:
            ws.append((item, w))
        prev_kind = k
''', '''
        if len(ws) and (k != prev_kind or ws.weight + w > max_weight):
            yield ws
            ws = WeightedSequence()
        ws.append((item, w))
        prev_kind = k
'''), ('''
    items = list(sequence)
    total_weight = float(sum(weight(item) for item in items))
''', '''
    items = list(sequence)
    total_weight = 0.
    for item in items:
        total_weight += weight(item)
'''))
e('logictree.py', ('''
    subsequence = []
    for _ in xrange(num_samples):
        subsequence.append(sample_one(weighted_objects, rnd))
    return subsequence
''', '''
    return [sample_one(weighted_objects, rnd) for _ in range(num_samples)]
'''), ('''
        for path in self._enumerate_paths([]):
            flat_path = []
            weight = Decimal('1.0')
            while path:
                path, branch = path
                weight *= branch.weight
                flat_path.append(branch)
            yield weight, flat_path[::-1]
''', '''
        for branch in self.branches:
            if branch.child_branchset is None:
                yield branch.weight, [branch]
            else:
                for weight, path in branch.child_branchset.enumerate_paths():
                    yield branch.weight * weight, [branch] + path
'''), ('''
        for branch in self.branches:
            if branch.branch_id == branch_id:
                return branch
        raise AssertionError("couldn't find branch %r" % branch_id)
''', '''
        found = [b for b in self.branches if b.branch_id == branch_id]
        if not found:
            raise AssertionError("couldn't find branch %r" % branch_id)
        return found[0]
'''), ('''
        new_open_ends = set()
''', '''
        new_open_ends = list()
'''), ('''
                new_open_ends.add(branch)
''', '''
                new_open_ends.append(branch)
'''), ('''
            branchset = self.parse_branchset(branchset_node, depth, number,
                                             validate)
            self.parse_branches(branchset_node, branchset, validate)
            if self.root_branchset is None:  # not set yet
                self.root_branchset = branchset
            else:
                self.apply_branchset(branchset_node, branchset)
''', '''
            branchset = self.parse_branchset(branchset_node, depth, number,
                                             validate)
            self.parse_branches(branchset_node, branchset, validate)
            if self.root_branchset is not None:
                self.apply_branchset(branchset_node, branchset)
            else:
                self.root_branchset = branchset
'''), ('''
        branch_ids = list(branch_ids[::-1])

        while branchset is not None:
            branch = branchset.get_branch_by_id(branch_ids.pop(-1))
            if not branchset.uncertainty_type == 'sourceModel':
''', '''
        ids = iter(branch_ids)

        while branchset is not None:
            branch = branchset.get_branch_by_id(next(ids))
            if branchset.uncertainty_type != 'sourceModel':
''') , ('''
        num = 1
        for val in self.get_num_branches().itervalues():
            num *= val
        return num
''', '''
        return reduce(operator.mul, self.get_num_branches().values(), 1)
'''), ('''
            weight = 1
            lt_path = []
            value = {}
            for fkey, branch in zip(filter_keys, branches):
                lt_path.append(branch.id)
                weight *= branch.weight
                assert branch.uncertainty in self.values[fkey], \\
                    branch.uncertainty  # sanity check
                value[fkey] = branch.uncertainty
            yield LtRealization(value, weight, tuple(lt_path))
''', '''
            lt_path = tuple(branch.id for branch in branches)
            weight = reduce(operator.mul, [b.weight for b in branches], 1)
            value = dict((fkey, branch.uncertainty)
                         for fkey, branch in zip(filter_keys, branches))
            yield LtRealization(value=value, weight=weight, lt_path=lt_path)
'''))
e('parallel.py', ('''
    cache = {}
    out = []
    for obj in objects:
        obj_id = id(obj)
        if obj_id not in cache:
            if isinstance(obj, Pickled):  # already pickled
                cache[obj_id] = obj
            else:  # pickle the object
                cache[obj_id] = Pickled(obj)
        out.append(cache[obj_id])
    return out
''', '''
    objects = list(objects)
    cache = {}
    for obj in objects:
        if id(obj) not in cache:
            cache[id(obj)] = obj if isinstance(obj, Pickled) else Pickled(obj)
    return [cache[id(obj)] for obj in objects]
'''), ('''
    done = 1
    prev_percent = 0
    while done < todo:
        percent = int(float(done) / todo * 100)
        if percent > prev_percent:
            progress('%s %3d%%', taskname, percent)
            prev_percent = percent
        yield done
        done += 1
''', '''
    prev_percent = 0
    for done in range(1, todo):
        percent = int(float(done) / todo * 100)
        if prev_percent < percent:
            progress('%s %3d%%', taskname, percent)
        prev_percent = max(percent, prev_percent)
        yield done
    done = max(todo, 1)
'''), ('''
        if no_distribute():
            agg_result = reduce(agg_and_percent, self.results, acc)
        else:
            agg_result = self.aggregate_result_set(agg_and_percent, acc)

        self.results = []
        return agg_result
''', '''
        if not no_distribute():
            acc = self.aggregate_result_set(agg_and_percent, acc)
        else:
            for result in self.results:
                acc = agg_and_percent(acc, result)
        del self.results[:]
        return acc
'''))
e('readini.py', ('''
            elif key.endswith('_file'):
                input_type = key[:-5]
                path = value
                # The `path` may be a path relative to the config file, or it
                # could be an absolute path.
                if not os.path.isabs(path):
                    # It's a relative path.
                    path = os.path.join(base_path, path)

                params['inputs'][input_type] = path
''', '''
            elif key.endswith('_file'):
                # an absolute path stays as it is
                params['inputs'][key[:-len('_file')]] = os.path.join(
                    base_path, value)
'''), ('''
    coords = []
    for lon, lat in reader:
        coords.append('%s %s' % (lon, lat))
    return 'MULTIPOINT(%s)' % ', '.join(coords)
''', '''
    return 'MULTIPOINT(' + ', '.join(
        ' '.join((lon, lat)) for lon, lat in reader) + ')'
'''))
e('riskloaders.py', ('''
            if no_damage_limit is None:
                fragility_functions[taxonomy] = [
                    scientific.FragilityFunctionDiscrete(
                        iml['imls'], poes, iml['imls'][0])
                    for poes in params]
            else:
                fragility_functions[taxonomy] = [
                    scientific.FragilityFunctionDiscrete(
                        [no_damage_limit] + iml['imls'], [0.0] + poes,
                        no_damage_limit)
                    for poes in params]
''', '''
            extra = [] if no_damage_limit is None else [no_damage_limit]
            imls = extra + iml['imls']
            fragility_functions[taxonomy] = [
                scientific.FragilityFunctionDiscrete(
                    imls[:], [0.0] * len(extra) + poes, imls[0])
                for poes in params]
'''), ('''
    for taxonomy in vulnerability_functions:
        yield taxonomy, dict(vulnerability_functions[taxonomy])
''', '''
    for taxonomy, pairs in sorted(vulnerability_functions.items()):
        yield taxonomy, dict(pairs)
'''))
e('source.py', ('''
        prev_min_mag = self.min_mag
        if prev_min_mag is None or min_mag < prev_min_mag:
            self.min_mag = min_mag
        prev_max_mag = self.max_mag
        if prev_max_mag is None or max_mag > prev_max_mag:
            self.max_mag = max_mag
''', '''
        self.min_mag = min_mag if self.min_mag is None else min(
            self.min_mag, min_mag)
        self.max_mag = max_mag if self.max_mag is None else max(
            self.max_mag, max_mag)
'''), ('''
            sites = src_filter(src)
            if sites is not None:
                for ss in split_source(src, discr):
                    tot_sources += 1
                    srcs.append(ss)
                    yield ss
                    self.filtered_sources = (len(srcs), tot_sources)
            else:
                tot_sources += 1
''', '''
            if src_filter(src) is None:
                tot_sources += 1
                continue
            for piece in split_source(src, discr):
                srcs.append(piece)
                tot_sources += 1
                yield piece
                self.filtered_sources = (len(srcs), tot_sources)
'''), ('''
        num_sources = len(self.sources)
        other_sources = len(other.sources)
        if num_sources == other_sources:
            return self.trt < other.trt
        return num_sources < other_sources
''', '''
        return (len(self.sources), self.trt) < (len(other.sources), other.trt)
'''), ('''
    i = 0  # split source index
    for mag, rate in src.mfd.get_annual_occurrence_rates():
        if rate:  # ignore zero occurency rate
            new_src = copy.copy(src)
            new_src.source_id = '%s-%s' % (src.source_id, i)
            new_src.mfd = mfd.EvenlyDiscretizedMFD(
                min_mag=mag, bin_width=src.mfd.bin_width,
                occurrence_rates=[rate])
            i += 1
            yield new_src
''', '''
    rates = [(mag, rate) for mag, rate in
             src.mfd.get_annual_occurrence_rates() if rate]
    for i, (mag, rate) in enumerate(rates):
        piece = copy.copy(src)
        piece.mfd = mfd.EvenlyDiscretizedMFD(
            mag, src.mfd.bin_width, [rate])
        piece.source_id = '%s-%s' % (src.source_id, i)
        yield piece
'''), ('''
                kwargs = dict(planar_surface.__dict__)
                kwargs.update(dict(mesh_spacing=self.rupture_mesh_spacing))

                planar_surfaces.append(geo.PlanarSurface(**kwargs))
''', '''
                kwargs = dict(vars(planar_surface),
                              mesh_spacing=self.rupture_mesh_spacing)
                planar_surfaces.append(geo.PlanarSurface(**kwargs))
'''))


def main(tree):
    for fname, old, new in E:
        path = os.path.join(tree, 'openquake', 'commonlib', fname)
        s = open(path, encoding='utf-8').read()
        if s.count(old) != 1:
            print('%d times in %s: %s' % (s.count(old), fname, old))
            continue
        open(path, 'w', encoding='utf-8').write(s.replace(old, new))
    print(len(E), 'edits')


if __name__ == '__main__':
    main(sys.argv[1])
