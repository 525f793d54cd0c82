"""Imports csvw from $VERIF_REPO/src, compiling every module from its source text (never from .pyc)."""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != 'csvw' and not fullname.startswith('csvw.'):
            return None
        base = os.path.join(SRC, *fullname.split('.'))
        init = os.path.join(base, '__init__.py')
        if os.path.exists(init):
            return importlib.util.spec_from_file_location(
                fullname, init, loader=_Loader(fullname, init), submodule_search_locations=[base])
        if os.path.exists(base + '.py'):
            return importlib.util.spec_from_file_location(
                fullname, base + '.py', loader=_Loader(fullname, base + '.py'))
        return None


def install():
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, _Finder())
    for k in [k for k in sys.modules if k == 'csvw' or k.startswith('csvw.')]:
        del sys.modules[k]


def preload():
    import csvw, csvw.db, csvw.__main__, csvw.metadata, csvw.dsv, csvw.jsonld, csvw.datatypes  # noqa
    import csvw.frictionless, csvw.utils  # noqa
    assert os.path.abspath(csvw.__file__).startswith(os.path.abspath(SRC)), csvw.__file__
    # dependencies which import or initialise lazily: do it once, before forking
    import rdflib, requests, sqlite3, zipfile, tempfile, decimal, idna, encodings.idna, json  # noqa
    import charset_normalizer  # noqa
    import rdflib.plugins.serializers.jsonld  # noqa
    import encodings.utf_16, encodings.utf_8_sig, encodings.latin_1, encodings.cp1252  # noqa
    import encodings.utf_32, encodings.cp437, encodings.ascii, encodings.utf_16_le, encodings.utf_16_be  # noqa
    from babel.numbers import NumberPattern  # noqa
    import http.client, urllib.request, email.parser  # noqa
    g = rdflib.Graph()
    g.add((rdflib.URIRef('http://a/b'), rdflib.URIRef('http://a/c'), rdflib.Literal('x')))
    g.serialize(format='json-ld')
