"""Stand-in for openquake.nrmllib (NRML 0.4)"""
import os
NAMESPACE = 'http://openquake.org/xmlns/nrml/0.4'
GML_NAMESPACE = 'http://www.opengis.net/gml'
DEFAULT_NAMESPACE_MAP = {None: NAMESPACE, 'gml': GML_NAMESPACE}
SERIALIZE_NS_MAP = DEFAULT_NAMESPACE_MAP
PARSE_NS_MAP = {'nrml': NAMESPACE, 'gml': GML_NAMESPACE}


class InvalidFile(Exception):
    pass


def nrml_schema_file():
    """Absolute path of the root schema file"""
    return os.path.join(os.path.dirname(os.path.abspath(__file__)),
                        'schema', 'nrml.xsd')


def assert_valid(source):
    from lxml import etree
    schema = etree.XMLSchema(file=nrml_schema_file())
    schema.assertValid(etree.parse(source))
