TABLE = '''
XML = """<?xml version="1.0"?>
<Product_Observational xmlns="http://pds.nasa.gov/pds4/pds/v1" xmlns:disp="http://pds.nasa.gov/pds4/disp/v1">
<Identification_Area>
<logical_identifier>urn:nasa:pds:b:c:p</logical_identifier>
<version_id>1.0</version_id><title>T</title>
<information_model_version>1.14.0.0</information_model_version>
<product_class>Product_Observational</product_class>
</Identification_Area>
%s
<File_Area_Observational><File><file_name>%s</file_name></File>
%s
</File_Area_Observational>
</Product_Observational>
"""


def xml(body, area=""):
    fn = D / "prod.xml"
    fn.write_text(XML % (area, "prod.dat", body))
    return fn
'''

SEEDS = [
    {
        "id": "sampled-base", "property": "C38",
        "edits": [("pdr/pds4_tools/reader/read_tables.py",
                   "        base = uni_sampled_field['base']\n",
                   "        base = int(uni_sampled_field['base'])\n")],
        "needs": "an exponentially sampled field whose base is not whole",
        "what": "the values of the sampled field are wrong",
        "demo": TABLE + '''
def main():
    (D / "prod.dat").write_bytes(bytes([1, 2, 3]))
    fn = xml("""<Table_Binary><local_identifier>t</local_identifier>
<offset unit="byte">0</offset><records>3</records>
<Uniformly_Sampled><sampling_parameter_name>x</sampling_parameter_name>
<sampling_parameter_interval>1</sampling_parameter_interval>
<first_sampling_parameter_value>0</first_sampling_parameter_value>
<last_sampling_parameter_value>1.198978</last_sampling_parameter_value>
<sampling_parameter_scale>Exponential</sampling_parameter_scale>
<sampling_parameter_base>2.5</sampling_parameter_base>
</Uniformly_Sampled>
<Record_Binary><fields>1</fields><groups>0</groups>
<record_length unit="byte">1</record_length>
<Field_Binary><name>a</name><field_number>1</field_number>
<field_location unit="byte">1</field_location>
<data_type>UnsignedByte</data_type>
<field_length unit="byte">1</field_length></Field_Binary>
</Record_Binary></Table_Binary>""")
    t = pdr.read(fn)["t"]
    x = [c for c in t.columns if "x" in str(c)]
    assert len(x) == 1 and t["a"].tolist() == [1, 2, 3]
    want = np.log(1 + np.arange(3)) / np.log(2.5)
    assert np.allclose(t[x[0]], want)
''',
    },
    {
        "id": "contiguous-groups", "property": "C22",
        "edits": [("pdr/pds4_tools/reader/read_tables.py",
                   "        if length * array_shape[i+2] != repetition_lengths[i]:\n",
                   "        if length * array_shape[i+1] != repetition_lengths[i]:\n")],
        "needs": "a group in a group whose repetitions are padded to as many "
                 "times the inner group's as the outer group has repetitions",
        "what": "the padding is read as values",
        "demo": TABLE + '''
def main():
    # 3 repetitions of 2 bytes and 1 byte of padding
    (D / "prod.dat").write_bytes(bytes([1, 2, 99, 3, 4, 99, 5, 6, 99]))
    fn = xml("""<Table_Binary><local_identifier>t</local_identifier>
<offset unit="byte">0</offset><records>1</records>
<Record_Binary><fields>0</fields><groups>1</groups>
<record_length unit="byte">9</record_length>
<Group_Field_Binary><repetitions>3</repetitions><fields>0</fields>
<groups>1</groups><group_location unit="byte">1</group_location>
<group_length unit="byte">9</group_length>
<Group_Field_Binary><repetitions>2</repetitions><fields>1</fields>
<groups>0</groups><group_location unit="byte">1</group_location>
<group_length unit="byte">2</group_length>
<Field_Binary><name>a</name><field_number>1</field_number>
<field_location unit="byte">1</field_location>
<data_type>UnsignedByte</data_type>
<field_length unit="byte">1</field_length></Field_Binary>
</Group_Field_Binary>
</Group_Field_Binary>
</Record_Binary></Table_Binary>""")
    t = pdr.read(fn)["t"]
    assert t.iloc[0].tolist() == [1, 2, 3, 4, 5, 6]
''',
    },
    {
        "id": "xmp-repeats", "property": "C39",
        "edits": [("pdr/pil_utils.py",
                   "        xmd.add(maybestrip_ns(node, remove_ns), unpacked)\n",
                   "        xmd[maybestrip_ns(node, remove_ns)] = unpacked\n")],
        "needs": "an XMP packet with a repeated element, or an element named "
                 "like an attribute of its parent",
        "what": "only the last of them is in the metadata",
        "demo": '''
def main():
    from PIL import Image
    xmp = (b'<x:xmpmeta xmlns:x="adobe:ns:meta/"><x:Seq><x:li>a</x:li>'
           b'<x:li>b</x:li></x:Seq></x:xmpmeta>')
    Image.fromarray(np.zeros((2, 2), "u1")).save(
        D / "a.tif", tiffinfo={700: xmp})
    packet = pdr.read(D / "a.tif").metadata["XMLPacket"]
    assert list(packet["Seq"].items()) == [("li", "a"), ("li", "b")]
''',
    },
    {
        "id": "strict-displays", "property": "C21",
        "edits": [("pdr/pds4_tools/reader/label_objects.py",
                   """        obj = cls.from_label(display_settings)
        obj.valid = obj.is_valid(xml_structure)
""", """        obj = cls.from_label(display_settings)
        obj.valid = obj.is_valid(xml_structure, raise_on_error=True)
"""), ("pdr/pds4_tools/reader/array_objects.py",
                   """                obj.display_settings = Meta_DisplaySettings.from_full_label(full_label, local_identifier)
            except (KeyError, PDS4StandardsException):
""", """                obj.display_settings = Meta_DisplaySettings.from_full_label(full_label, local_identifier)
            except KeyError:
""")],
        "needs": "display settings that name an axis the array does not have",
        "what": "the array is missing from the product",
        "demo": TABLE + '''
def main():
    (D / "prod.dat").write_bytes(bytes(range(6)))
    area = """<Observation_Area><Discipline_Area><disp:Display_Settings>
<Local_Internal_Reference>
<local_identifier_reference>img</local_identifier_reference>
<local_reference_type>display_settings_to_array</local_reference_type>
</Local_Internal_Reference>
<disp:Display_Direction>
<disp:horizontal_display_axis>Column</disp:horizontal_display_axis>
<disp:horizontal_display_direction>Left to Right</disp:horizontal_display_direction>
<disp:vertical_display_axis>Line</disp:vertical_display_axis>
<disp:vertical_display_direction>Top to Bottom</disp:vertical_display_direction>
</disp:Display_Direction>
</disp:Display_Settings></Discipline_Area></Observation_Area>"""
    fn = xml("""<Array_2D_Image><local_identifier>img</local_identifier>
<offset unit="byte">0</offset><axes>2</axes>
<axis_index_order>Last Index Fastest</axis_index_order>
<Element_Array><data_type>UnsignedByte</data_type></Element_Array>
<Axis_Array><axis_name>Line</axis_name><elements>2</elements><sequence_number>1</sequence_number></Axis_Array>
<Axis_Array><axis_name>Sample</axis_name><elements>3</elements><sequence_number>2</sequence_number></Axis_Array>
</Array_2D_Image>""", area)
    assert pdr.read(fn)["img"].tolist() == [[0, 1, 2], [3, 4, 5]]
''',
    },
]
