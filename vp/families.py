"""
The products that the library documents as needing special handling: for each
case, the conditions on label keywords, and on the name of the object (@name),
that all of its products meet. (Written down from the documentation and
conditions of pdr/formats/checkers.py; conditions on file names or on contents
of definitions are left out, i.e. taken to hold, so this is on the safe side.)
"""
FAMILIES = [
    ('offset', [
        ('INSTRUMENT_ID', 'eq', ['CHEMIN']),
    ]),
    ('offset', [
        ('DATA_SET_ID', 'eq', ['CLEM1-L-RSS-5-BSR-V1.0']),
        ('@name', 'match', '(HEADER|DATA)_TABLE'),
    ]),
    ('offset', [
        ('INSTRUMENT_ID', 'eq', ['THEMIS']),
        ('@name', 'eq', ['QUBE']),
    ]),
    ('offset', [
        ('INSTRUMENT_NAME', 'eq', ['DESCENT IMAGER SPECTRAL RADIOMETER']),
        ('PRODUCT_TYPE', 'eq', ['RDR']),
    ]),
    ('offset', [
        ('INSTRUMENT_HOST_NAME', 'eq', ['HUYGENS PROBE']),
        ('FILE_NAME', 'search', 'STRIP|VISIBL|IMAGE|IR_|TIME|SUN|SOLAR'),
    ]),
    ('offset', [
        ('DATA_SET_ID', 'eq', ['CO-E/V/J-ISSNA/ISSWA-2-EDR-V1.0']),
    ]),
    ('offset', [
        ('INSTRUMENT_ID', 'eq', ['CRAT']),
        ('PRODUCT_TYPE', 'eq', ['EDR']),
        ('@name', 'eq', ['TABLE_1']),
    ]),
    ('offset', [
        ('DATA_SET_ID', 'eq', ['PHX-M-SSI-5-ATMOS-OPACITY-V1.0']),
        ('@name', 'has', 'TABLE'),
    ]),
    ('offset', [
        ('DATA_SET_ID', 'eq', ['PHX-M-MECA-4-NIRDR-V1.0']),
        ('PRODUCT_TYPE', 'eq', ['MECA_WCL_CP', 'MECA_WCL_CV']),
        ('@name', 'has', 'TABLE'),
    ]),
    ('offset', [
        ('INSTRUMENT_HOST_NAME', 'eq', ['MARS SCIENCE LABORATORY']),
        ('INSTRUMENT_ID', 'eq', ['REMS']),
        ('@name', 'eq', ['REMS_REPORT_TABLE']),
        ('PRODUCT_ID', 'has', 'HSDEF__'),
    ]),
    ('offset', [
        ('INSTRUMENT_HOST_NAME', 'eq', ['MARS SCIENCE LABORATORY']),
        ('INSTRUMENT_ID', 'eq', ['REMS']),
        ('@name', 'eq', ['REMS_REPORT_TABLE']),
        ('PRODUCT_ID', 'has', 'HSREG__'),
    ]),
    ('offset', [
        ('INSTRUMENT_HOST_NAME', 'eq', ['MARS SCIENCE LABORATORY']),
        ('INSTRUMENT_ID', 'eq', ['MAHLI', 'MAST_RIGHT', 'MAST_LEFT', 'MARDI']),
        ('DATA_SET_ID', 'has', 'EDR'),
    ]),
    ('table_reader', [
        ('DATA_SET_ID', 'eq', ['CO-S-MIMI-4-CHEMS-CALIB-V1.0', 'CO-S-MIMI-4-LEMMS-CALIB-V1.0', 'CO-S-MIMI-4-INCA-CALIB-V1.0', 'CO-E/J/S/SW-MIMI-2-LEMMS-UNCALIB-V1.0', 'CO-SSA-RADAR-3-ABDR-SUMMARY-V1.0']),
    ]),
    ('table_reader', [
        ('INSTRUMENT_HOST_NAME', 'eq', ['CASSINI ORBITER']),
        ('PRODUCT_TYPE', 'eq', ['ANCILLARY']),
        ('DATA_SET_ID', 'has', 'CO-S-MIMI-4-'),
    ]),
    ('table_reader', [
        ('INSTRUMENT_ID', 'eq', ['CHEMIN']),
        ('@name', 'has', 'SPREADSHEET'),
    ]),
    ('table_reader', [
        ('DATA_SET_ID', 'has', 'MSL-M-SAM-'),
        ('PRODUCT_ID', 'has', 'QMS'),
        ('@name', 'has', 'TABLE'),
    ]),
    ('table_reader', [
        ('DATA_SET_ID', 'eq', ['MSL-M-ROVER-6-RDR-PLACES-V1.0']),
        ('@name', 'eq', ['SPREADSHEET']),
    ]),
    ('table_reader', [
        ('INSTRUMENT_NAME', 'eq', ['ROSETTA PLASMA CONSORTIUM - MUTUAL IMPEDANCE PROBE']),
        ('@name', 'has', 'SPECTRUM_TABLE'),
    ]),
    ('table_reader', [
        ('SPACECRAFT_NAME', 'eq', ['MAGELLAN']),
        ('@name', 'eq', ['TABLE']),
        ('NOTE', 'startswith', ['Geometry']),
    ]),
    ('table_reader', [
        ('DATA_SET_ID', 'eq', ['GO-J-NIMS-4-ADR-SL9IMPACT-V1.0']),
        ('@name', 'eq', ['TABLE']),
        ('PRODUCT_ID', 'has', 'CAL_DATA.TAB'),
    ]),
    ('table_reader', [
        ('DATA_SET_ID', 'eq', ['GO-J-NIMS-4-ADR-SL9IMPACT-V1.0']),
        ('@name', 'eq', ['TABLE']),
        ('PRODUCT_ID', 'has', 'G_DATA.TAB'),
    ]),
    ('table_reader', [
        ('DATA_SET_ID', 'eq', ['GO-J-NIMS-4-ADR-SL9IMPACT-V1.0']),
        ('@name', 'eq', ['TABLE']),
        ('PRODUCT_ID', 'has', 'R_DATA.TAB'),
    ]),
    ('table_reader', [
        ('DATA_SET_ID', 'startswith', ['MGN-V-RSS-5-OCC-PROF']),
        ('@name', 'eq', ['TABLE']),
    ]),
    ('table_reader', [
        ('INSTRUMENT_ID', 'eq', ['DLRE']),
        ('PRODUCT_TYPE', 'eq', ['GCP', 'PCP', 'PRP']),
        ('@name', 'eq', ['TABLE']),
    ]),
    ('table_reader', [
        ('DATA_SET_ID', 'eq', ['GO-J-PWS-5-DDR-PLASMA-DENSITY-FULL-V1.0']),
        ('@name', 'eq', ['SPREADSHEET']),
    ]),
    ('table_reader', [
        ('DATA_SET_ID', 'eq', ['ODY-M-GRS-5-ELEMENTS-V1.0']),
        ('@name', 'eq', ['TABLE']),
    ]),
    ('table_reader', [
        ('DATA_SET_ID', 'eq', ['ULY-J-GAS-5-SKY-MAPS-V1.0']),
        ('@name', 'eq', ['TABLE']),
    ]),
    ('table_reader', [
        ('DATA_SET_ID', 'has', 'MRO-M-MCS-5-DDR'),
        ('@name', 'eq', ['TABLE']),
    ]),
    ('table_reader', [
        ('INSTRUMENT_ID', 'eq', ['CRISM']),
        ('PRODUCT_TYPE', 'eq', ['ANCILLARY']),
        ('PRODUCT_ID', 'has', 'OBS'),
        ('@name', 'eq', ['TABLE']),
    ]),
    ('table_reader', [
        ('DATA_SET_ID', 'eq', ['IHW-C-IRFCURV-3-EDR-HALLEY-V2.0']),
        ('@name', 'eq', ['TABLE']),
    ]),
    ('table_reader', [
        ('DATA_SET_ID', 'eq', ['IHW-C-PPFLX-3-RDR-HALLEY-V1.0', 'IHW-C-PPOL-3-RDR-HALLEY-V1.0', 'IHW-C-PPSTOKE-3-RDR-HALLEY-V1.0', 'IHW-C-PPMAG-3-RDR-HALLEY-V1.0', 'IHW-C-MSNRDR-3-RDR-HALLEY-ETA-AQUAR-V1.0', 'IHW-C-MSNRDR-3-RDR-HALLEY-ORIONID-V1.0', 'IHW-C-MSNVIS-3-RDR-HALLEY-ETA-AQUAR-V1.0', 'IHW-C-MSNVIS-3-RDR-HALLEY-ORIONID-V1.0', 'IHW-C-IRFTAB-3-RDR-HALLEY-V1.0', 'IHW-C-IRPOL-3-RDR-HALLEY-V1.0', 'IHW-C-IRPHOT-3-RDR-HALLEY-V1.0']),
        ('@name', 'eq', ['TABLE']),
    ]),
    ('table_reader', [
        ('DATA_SET_ID', 'eq', ['VG1-J-LECP-4-SUMM-SECTOR-15MIN-V1.1']),
        ('@name', 'eq', ['TABLE']),
    ]),
    ('table_reader', [
        ('DATA_SET_ID', 'eq', ['VG2-U-LECP-4-RDR-STEP-12.8MIN-V1.0']),
        ('@name', 'eq', ['TABLE']),
    ]),
    ('table_reader', [
        ('DATA_SET_ID', 'eq', ['VG1-S-LECP-3-RDR-STEP-6MIN-V1.0']),
        ('@name', 'eq', ['SPREADSHEET']),
    ]),
    ('table_reader', [
        ('DATA_SET_ID', 'eq', ['VL2-M-SEIS-5-RDR-V1.0']),
        ('@name', 'eq', ['TABLE', 'SPREADSHEET']),
    ]),
    ('table_reader', [
        ('DATA_SET_ID', 'has', 'MEX-M-ASPERA3-2-EDR-IMA'),
        ('@name', 'eq', ['SPREADSHEET']),
    ]),
    ('table_reader', [
        ('DATA_SET_ID', 'match', 'MER[12]-M-RSS-1-EDR-V1.0'),
        ('PRODUCT_TYPE', 'eq', ['UHFD']),
        ('@name', 'eq', ['SPREADSHEET']),
    ]),
    ('table_reader', [
        ('DATA_SET_ID', 'eq', ['PHX-M-MECA-4-NIRDR-V1.0']),
        ('INSTRUMENT_ID', 'eq', ['MECA_AFM']),
        ('@name', 'has', 'TABLE'),
    ]),
    ('table_reader', [
        ('INSTRUMENT_HOST_NAME', 'eq', ['MARS EXPRESS']),
        ('INSTRUMENT_ID', 'eq', ['MRS']),
        ('PRODUCT_ID', 'has', 'ODF'),
        ('PRODUCT_ID', 'has', 'L1B'),
        ('@name', 'has', 'TABLE'),
    ]),
    ('table_reader', [
        ('DATA_SET_ID', 'eq', ['LRO-L-MRFLRO-1-PDR-V1.0']),
        ('PRODUCT_ID', 'has', 'HK_'),
        ('@name', 'eq', ['SPREADSHEET']),
    ]),
    ('table_reader', [
        ('INSTRUMENT_HOST_NAME', 'eq', ['MARS SCIENCE LABORATORY']),
        ('INSTRUMENT_ID', 'eq', ['REMS']),
        ('@name', 'has', 'TABLE'),
        ('PRODUCT_ID', 'has', 'SP_____'),
    ]),
    ('table_reader', [
        ('INSTRUMENT_HOST_NAME', 'eq', ['MARS SCIENCE LABORATORY']),
        ('INSTRUMENT_ID', 'eq', ['REMS']),
        ('@name', 'eq', ['REMS_SCIENCE_TABLE']),
        ('DATA_SET_ID', 'has', 'RDR'),
    ]),
    ('table_reader', [
        ('DATA_SET_ID', 'has', 'ICE-C-'),
        ('DATA_SET_ID', 'has', '-3-RDR-'),
        ('@name', 'eq', ['TABLE']),
    ]),
    ('table_reader', [
        ('INSTRUMENT_HOST_NAME', 'eq', ['LUNAR RECONNAISSANCE ORBITER']),
        ('INSTRUMENT_NAME', 'eq', ['RADIO SCIENCE SUBSYSTEM']),
        ('@name', 'eq', ['WEAREC_TABLE']),
    ]),
    ('table_reader', [
        ('INSTRUMENT_HOST_NAME', 'eq', ['LUNAR PROSPECTOR']),
        ('PRODUCT_ID', 'eq', ['OUTAGES']),
        ('@name', 'eq', ['TABLE']),
    ]),
    ('table_reader', [
        ('DATA_SET_ID', 'eq', ['ODY-M-GRS-2-EDR-V1.0']),
        ('PRODUCT_TYPE', 'eq', ['E_KERNEL']),
    ]),
    ('table_reader', [
        ('INSTRUMENT_HOST_NAME', 'eq', ['VENUS EXPRESS']),
        ('INSTRUMENT_ID', 'eq', ['VRA']),
        ('PRODUCT_TYPE', 'eq', ['UDR']),
        ('PRODUCT_ID', 'has', '.RAW'),
    ]),
    ('table_reader', [
        ('INSTRUMENT_ID', 'eq', ['SPEDE']),
        ('FILE_NAME', 'has', 'PD_40_'),
        ('FILE_NAME', 'has', '.TAB'),
    ]),
    ('structure', [
        ('DATA_SET_ID', 'eq', ['CLEM1-L-RSS-5-BSR-V1.0']),
        ('@name', 'eq', ['DATA_TABLE']),
    ]),
    ('structure', [
        ('INSTRUMENT_HOST_NAME', 'eq', ['MARS GLOBAL SURVEYOR']),
        ('INSTRUMENT_ID', 'eq', ['RSS']),
        ('PRODUCT_TYPE', 'eq', ['ODF']),
        ('@name', 'eq', ['ODF3B_TABLE']),
    ]),
    ('structure', [
        ('INSTRUMENT_HOST_NAME', 'eq', ['MARS GLOBAL SURVEYOR']),
        ('INSTRUMENT_NAME', 'eq', ['RADIO SCIENCE SUBSYSTEM']),
        ('PRODUCT_TYPE', 'eq', ['ECS']),
    ]),
    ('structure', [
        ('INSTRUMENT_HOST_NAME', 'eq', ['CASSINI ORBITER']),
        ('INSTRUMENT_ID', 'eq', ['RPWS']),
        ('@name', 'eq', ['TIME_SERIES']),
    ]),
    ('structure', [
        ('INSTRUMENT_HOST_NAME', 'eq', ['HUYGENS PROBE']),
    ]),
    ('structure', [
        ('DATA_SET_ID', 'match', 'GP-J-(NMS|ASI)-3-ENTRY-V1.0'),
        ('@name', 'eq', ['TABLE']),
    ]),
    ('structure', [
        ('DATA_SET_ID', 'eq', ['GO-E-EPD-2-SAMP-PAD-V1.0']),
        ('PRODUCT_ID', 'eq', ['E1PAD_7.TAB']),
        ('@name', 'eq', ['TIME_SERIES']),
    ]),
    ('structure', [
        ('DATA_SET_ID', 'has', 'VEGA'),
        ('DATA_SET_ID', 'has', '-C-DUCMA-3-RDR-HALLEY-V1.0'),
        ('@name', 'eq', ['TABLE']),
    ]),
    ('structure', [
        ('DATA_SET_ID', 'eq', ['GIO-C-PIA-3-RDR-HALLEY-V1.0']),
        ('@name', 'eq', ['ARRAY']),
    ]),
    ('structure', [
        ('DATA_SET_ID', 'match', 'VEGA.-C-PUMA.*'),
        ('@name', 'eq', ['ARRAY']),
    ]),
    ('structure', [
        ('DATA_SET_ID', 'match', 'MRO-M-MCS-(4-RDR|2-EDR)-V1.0'),
        ('@name', 'eq', ['TABLE']),
    ]),
    ('structure', [
        ('DATA_SET_ID', 'eq', ['VG2-SS-PLS-4-SUMM-1HR-AVG-V1.0']),
        ('@name', 'eq', ['TABLE']),
    ]),
    ('structure', [
        ('DATA_SET_ID', 'has', 'IHW-C-SPEC-'),
        ('@name', 'eq', ['SPECTRUM']),
    ]),
    ('structure', [
        ('DATA_SET_ID', 'eq', ['PHX-M-MECA-2-NIEDR-V1.0']),
        ('@name', 'eq', ['TBL_TABLE']),
    ]),
    ('structure', [
        ('DATA_SET_ID', 'eq', ['PHX-M-MECA-4-NIRDR-V1.0']),
        ('INSTRUMENT_ID', 'eq', ['MECA_AFM']),
        ('@name', 'has', 'HEADER_TABLE'),
    ]),
    ('structure', [
        ('DATA_SET_ID', 'eq', ['PHX-M-TEGA-2-LEDEDR-V1.0']),
        ('@name', 'eq', ['TIME_SERIES']),
    ]),
    ('structure', [
        ('DATA_SET_ID', 'eq', ['PHX-M-TEGA-4-SCRDR-V1.0']),
        ('@name', 'eq', ['TIME_SERIES']),
    ]),
    ('structure', [
        ('DATA_SET_ID', 'eq', ['MEX-SUN-ASPERA3-4-SWM-V1.0']),
        ('@name', 'eq', ['TABLE']),
    ]),
    ('structure', [
        ('DATA_SET_ID', 'has', '-MIDAS-3-'),
        ('PRODUCT_ID', 'has', 'SPS'),
        ('@name', 'eq', ['TIME_SERIES']),
    ]),
    ('structure', [
        ('DATA_SET_ID', 'has', '-MIDAS-3-'),
        ('PRODUCT_ID', 'has', 'FSC'),
        ('@name', 'eq', ['FREQUENCY_SERIES']),
    ]),
    ('structure', [
        ('DATA_SET_NAME', 'has', 'ROSETTA'),
        ('DATA_SET_NAME', 'has', 'CONSERT'),
        ('@name', 'has', 'TABLE'),
        ('@name', 'startswith', ['I_', 'Q_']),
    ]),
    ('structure', [
        ('SPACECRAFT_NAME', 'eq', ['GALILEO ORBITER']),
        ('INSTRUMENT_NAME', 'eq', ['SOLID_STATE_IMAGING', 'SOLID STATE IMAGING SYSTEM']),
    ]),
    ('structure', [
        ('DATA_SET_ID', 'eq', ['ODY-M-GRS-2-EDR-V1.0']),
        ('PRODUCT_TYPE', 'eq', ['E_KERNEL']),
    ]),
    ('structure', [
        ('INSTRUMENT_HOST_NAME', 'eq', ['VENUS EXPRESS']),
        ('INSTRUMENT_ID', 'eq', ['VRA']),
        ('PRODUCT_TYPE', 'eq', ['UDR']),
    ]),
    ('position', [
        ('INSTRUMENT_ID', 'eq', ['MARSIS']),
        ('DATA_SET_NAME', 'has', ' TEC '),
    ]),
    ('position', [
        ('INSTRUMENT_HOST_NAME', 'eq', ['HUYGENS PROBE']),
        ('FILE_NAME', 'search', 'DARK|STRIP|VIS_EX|SUN|VISIBL|TIME|SOLAR|IMAGE'),
    ]),
    ('position', [
        ('INSTRUMENT_NAME', 'eq', ['DESCENT IMAGER SPECTRAL RADIOMETER']),
        ('PRODUCT_TYPE', 'eq', ['RDR']),
        ('@name', 'eq', ['TABLE', 'HEADER']),
    ]),
    ('position', [
        ('DATA_SET_ID', 'has', 'CO-V/E/J/S/SS-RPWS-'),
        ('PRODUCT_TYPE', 'eq', ['ANCILLARY']),
        ('@name', 'eq', ['RPWS_TIME_ORDERED_TABLE']),
    ]),
    ('position', [
        ('DATA_SET_ID', 'eq', ['LRO-L-RSS-1-TRACKING-V1.0']),
        ('@name', 'eq', ['WEAREC_TABLE']),
    ]),
    ('position', [
        ('DATA_SET_ID', 'eq', ['DIF-C-HRIV/MRI-5-HARTLEY2-SHAPE-V1.0']),
        ('PRODUCT_ID', 'eq', ['HARTLEY2-CARTESIAN-PLATE-MODEL']),
        ('@name', 'has', 'TABLE'),
    ]),
    ('position', [
        ('DATA_SET_ID', 'has', 'MEX-M-MRS-5-OCC'),
        ('@name', 'eq', ['ATM_TABLE']),
    ]),
    ('position', [
        ('DATA_SET_ID', 'eq', ['PHX-M-SSI-5-ATMOS-OPACITY-V1.0']),
        ('@name', 'has', 'HEADER'),
    ]),
    ('position', [
        ('INSTRUMENT_HOST_NAME', 'eq', ['MARS EXPRESS']),
        ('INSTRUMENT_ID', 'eq', ['MRS']),
        ('PRODUCT_ID', 'has', 'ICL'),
        ('PRODUCT_ID', 'has', 'L1B'),
        ('@name', 'eq', ['DOPPLER_TABLE']),
    ]),
    ('position', [
        ('INSTRUMENT_HOST_NAME', 'eq', ['MARS EXPRESS']),
        ('INSTRUMENT_ID', 'eq', ['MRS']),
        ('PRODUCT_ID', 'has', 'ODF'),
        ('PRODUCT_ID', 'has', 'L02'),
        ('@name', 'eq', ['RANGING_TABLE']),
    ]),
    ('position', [
        ('DATA_SET_ID', 'eq', ['ESO1M-SR-APPH-4-OCC-V1.0', 'ESO22M-SR-APPH-4-OCC-V1.0', 'IRTF-SR-URAC-4-OCC-V1.0', 'PAL200-SR-CIRC-4-OCC-V1.0', 'MCD27M-SR-IIRAR-4-OCC-V1.0']),
        ('PRODUCT_ID', 'has', 'GEOM'),
        ('@name', 'eq', ['SERIES']),
    ]),
    ('position', [
        ('DATA_SET_ID', 'eq', ['MRO-M-CRISM-5-RDR-MULTISPECTRAL-V1.0']),
        ('PRODUCT_ID', 'has', 'MRRWV'),
        ('@name', 'eq', ['TABLE']),
    ]),
    ('position', [
        ('DATA_SET_ID', 'eq', ['MSX-L-SPIRIT3-2/4-V1.0']),
        ('@name', 'eq', ['ENVI_HEADER']),
    ]),
    ('position', [
        ('INSTRUMENT_HOST_NAME', 'eq', ['VENUS EXPRESS']),
        ('INSTRUMENT_ID', 'eq', ['VRA']),
        ('PRODUCT_TYPE', 'eq', ['UDR']),
    ]),
    ('sample_type', [
        ('DATA_SET_ID', 'eq', ['JNO-J-JIRAM-3-RDR-V1.0']),
        ('PRODUCT_TYPE', 'eq', ['RDR']),
    ]),
    ('sample_type', [
        ('INSTRUMENT_ID', 'eq', ['LROC']),
        ('PRODUCT_TYPE', 'eq', ['EDR']),
    ]),
    ('sample_type', [
        ('DATA_SET_ID', 'eq', ['MGN-V-RDRS-5-GVDR-V1.0']),
        ('PRODUCT_ID', 'has', 'GVANF'),
    ]),
    ('sample_type', [
        ('DATA_SET_ID', 'eq', ['LRO-L-CRAT-2-EDR-RAWDATA-V1.0']),
    ]),
    ('sample_type', [
        ('SPACECRAFT_NAME', 'eq', ['GALILEO_ORBITER']),
        ('DATA_SET_ID', 'has', '-NIMS-2-EDR-V1.0'),
    ]),
    ('sample_type', [
        ('DATA_SET_ID', 'eq', ['ULY-J-EPAC-4-SUMM-PHA-24HR-V1.0']),
        ('PRODUCT_ID', 'endswith', ['BIN']),
    ]),
    ('sample_type', [
        ('DATA_SET_ID', 'match', 'CO-(CAL-ISS|[S/EVJ-]+ISSNA/ISSWA-2)'),
    ]),
    ('bit_column_case', [
        ('INSTRUMENT_NAME', 'eq', ['ALPHA PARTICLE X-RAYSPECTROMETER', 'JOVIAN AURORAL PLASMA DISTRIBUTIONS EXPERIMENT', 'CHEMISTRY AND MINERALOGY INSTRUMENT', 'MARS ADVANCED RADAR FOR SUBSURFACE ANDIONOSPHERE SOUNDING']),
    ]),
    ('bit_start_case', [
        ('INSTRUMENT_NAME', 'eq', ['JOVIAN INFRARED AURORAL MAPPER']),
    ]),
    ('bit_format', [
        ('DATA_SET_ID', 'match', 'CO-(CAL-ISS|[S/EVJ-]+ISSNA/ISSWA-2)'),
    ]),
    ('bit_format', [
        ('SPACECRAFT_NAME', 'eq', ['GALILEO ORBITER']),
        ('INSTRUMENT_NAME', 'eq', ['SOLID_STATE_IMAGING', 'SOLID STATE IMAGING SYSTEM']),
    ]),
    ('block', [
        ('DATA_SET_ID', 'startswith', ['JNO-E/J/SS']),
        ('DATA_SET_ID', 'has', 'BSTFULL'),
        ('@name', 'eq', ['FREQ_OFFSET_TABLE', 'DATA_TABLE']),
    ]),
    ('block', [
        ('INSTRUMENT_ID', 'eq', ['LAMP']),
        ('PRODUCT_TYPE', 'eq', ['RDR']),
        ('@name', 'has', 'IMAGE'),
        ('@name', 'has', 'HISTOGRAM'),
    ]),
    ('block', [
        ('DATA_SET_ID', 'eq', ['LRO-L-MRFLRO-5-GLOBAL-MOSAIC-V1.0']),
        ('@name', 'eq', ['IMAGE']),
    ]),
    ('block', [
        ('DATA_SET_ID', 'eq', ['PVO-V-ORPA-5-ELE/ION/PHOTO/UADS-V1.0']),
        ('PRODUCT_ID', 'has', 'ORPA_LOW_RES'),
        ('@name', 'eq', ['TABLE']),
    ]),
    ('block', [
        ('DATA_SET_ID', 'eq', ['PVO-V-OIMS-4-IONDENSITY-12S-V1.0']),
        ('@name', 'eq', ['TABLE']),
    ]),
    ('block', [
        ('DATA_SET_ID', 'has', 'GO-E-EPD-4-SUMM-'),
        ('PRODUCT_ID', 'has', 'E1_'),
        ('@name', 'eq', ['TIME_SERIES']),
    ]),
    ('block', [
        ('INSTRUMENT_NAME', 'eq', ['PLASMA WAVE RECEIVER']),
        ('DATA_SET_ID', 'has', 'SUMM'),
        ('@name', 'eq', ['TIME_SERIES']),
    ]),
    ('block', [
        ('INSTRUMENT_NAME', 'eq', ['PLASMA WAVE RECEIVER']),
        ('DATA_SET_ID', 'has', 'SUMM'),
        ('@name', 'eq', ['TABLE']),
    ]),
    ('block', [
        ('DATA_SET_ID', 'has', 'ULY-J-EPAC-4-SUMM'),
        ('@name', 'eq', ['TABLE']),
    ]),
    ('block', [
        ('DATA_SET_ID', 'has', 'VG2-N-MAG-4-RDR-HGCOORDS'),
        ('STANDARD_DATA_PRODUCT_ID', 'eq', ['ASCII DATA']),
        ('@name', 'eq', ['TABLE']),
    ]),
    ('block', [
        ('DATA_SET_ID', 'eq', ['VG2-SS-PLS-4-SUMM-1HR-AVG-V1.0']),
        ('@name', 'eq', ['TABLE']),
    ]),
    ('block', [
        ('DATA_SET_ID', 'eq', ['VG2-SS-PLS-3-RDR-FINE-RES-V1.0']),
        ('@name', 'eq', ['TABLE']),
    ]),
    ('block', [
        ('DATA_SET_ID', 'eq', ['VG2-U-PLS-5-SUMM-IONBR-48SEC-V1.0']),
        ('PRODUCT_ID', 'eq', ['SUMRY.DAT']),
        ('@name', 'eq', ['TIME_SERIES']),
    ]),
    ('block', [
        ('DATA_SET_ID', 'eq', ['M9-M-IRIS-3-RDR-V1.0']),
        ('@name', 'eq', ['SPECTRAL_SERIES']),
    ]),
    ('block', [
        ('DATA_SET_ID', 'eq', ['M9-M-IRIS-3-RDR-V1.0']),
        ('@name', 'has', 'SPECTRUM'),
    ]),
    ('block', [
        ('DATA_SET_ID', 'match', 'IHW-C-MSNRDR-3-RDR-HALLEY-(ETA-AQUAR|ORIONID)-V1.0'),
        ('@name', 'eq', ['TABLE']),
    ]),
    ('block', [
        ('DATA_SET_ID', 'has', 'VG2-'),
        ('DATA_SET_ID', 'has', '-PRA-3-RDR-LOWBAND-6SEC-V1.0'),
        ('@name', 'eq', ['TABLE']),
    ]),
    ('block', [
        ('DATA_SET_ID', 'eq', ['PHX-M-MECA-2-NIEDR-V1.0']),
        ('PRODUCT_TYPE', 'match', 'MECA-EM1[012]'),
        ('@name', 'eq', ['WCHEM_TABLE']),
    ]),
    ('block', [
        ('DATA_SET_ID', 'has', 'MEX-M-PFS-2-EDR-'),
        ('PRODUCT_ID', 'has', 'RAW'),
        ('@name', 'eq', ['TABLE']),
    ]),
    ('block', [
        ('DATA_SET_ID', 'has', 'MEX-M-PFS-2-EDR-'),
        ('PRODUCT_ID', 'has', 'HK'),
        ('@name', 'eq', ['TABLE']),
    ]),
    ('block', [
        ('INSTRUMENT_HOST_NAME', 'eq', ['MARS EXPRESS']),
        ('INSTRUMENT_ID', 'eq', ['MRS']),
        ('PRODUCT_ID', 'has', 'ODF'),
        ('PRODUCT_ID', 'has', 'L1B'),
        ('PRODUCT_ID', 'has', 'RMP'),
        ('@name', 'has', 'TABLE'),
    ]),
    ('block', [
        ('DATA_SET_ID', 'eq', ['WFF-E-ATM-1/5-V1.0']),
        ('@name', 'eq', ['IMAGE']),
    ]),
    ('block', [
        ('DATA_SET_ID', 'eq', ['CO-CAL-ISS-2-V1.0']),
        ('@name', 'eq', ['IMAGE']),
    ]),
    ('block', [
        ('DATA_SET_ID', 'eq', ['CO-CAL-ISS-2-V1.0']),
        ('@name', 'eq', ['IMAGE']),
        ('FILE_RECORDS', 'eq', [1025]),
    ]),
    ('block', [
        ('DATA_SET_ID', 'eq', ['CO-S-ISSNA/ISSWA-2-EDR-V1.0', 'CO-E/V/J-ISSNA/ISSWA-2-EDR-V1.0', 'CO-CAL-ISSNA/ISSWA-2-EDR-V1.0']),
        ('@name', 'eq', ['LINE_PREFIX_TABLE', 'TELEMETRY_TABLE']),
    ]),
    ('block', [
        ('DATA_SET_ID', 'eq', ['MGS-M-MOLA-3-PEDR-L1A-V1.0']),
        ('@name', 'has', 'TABLE'),
    ]),
    ('block', [
        ('DATA_SET_ID', 'eq', ['IUE-C-SWP-3-EDR-IUECDB-V1.0']),
        ('@name', 'eq', ['QUALITY_IMAGE']),
    ]),
    ('block', [
        ('SPACECRAFT_NAME', 'eq', ['GALILEO ORBITER']),
        ('INSTRUMENT_NAME', 'eq', ['SOLID STATE IMAGING SYSTEM']),
        ('@name', 'eq', ['LINE_PREFIX_TABLE']),
    ]),
    ('block', [
        ('INSTRUMENT_HOST_NAME', 'eq', ['MARS SCIENCE LABORATORY']),
        ('INSTRUMENT_ID', 'eq', ['MAHLI', 'MAST_RIGHT', 'MAST_LEFT', 'MARDI']),
        ('DATA_SET_ID', 'has', 'EDR'),
        ('@name', 'eq', ['IMAGE']),
    ]),
    ('block', [
        ('INSTRUMENT_HOST_NAME', 'eq', ['VENUS EXPRESS']),
        ('INSTRUMENT_ID', 'eq', ['VRA']),
        ('PRODUCT_ID', 'has', '1B_RMP_'),
    ]),
    ('block', [
        ('DATA_SET_ID', 'eq', ['SLN-L-GRS-5-NUCLIDE-MAP-V2.0']),
        ('@name', 'eq', ['TABLE']),
    ]),
    ('block', [
        ('DATA_SET_ID', 'has', 'SLN-L-SP'),
        ('DATA_SET_ID', 'has', 'LEVEL2B'),
        ('@name', 'eq', ['ANCILLARY_AND_SUPPLEMENT_DATA']),
    ]),
    ('block', [
        ('DATA_SET_ID', 'has', 'SLN-L-LMAG-5-MA-GRID'),
        ('@name', 'eq', ['TABLE']),
    ]),
    ('block', [
        ('DATA_SET_ID', 'eq', ['SLN-L-LMAG-5-1D-SIGMA-ECS-V1.0']),
        ('@name', 'eq', ['TABLE']),
    ]),
    ('block', [
        ('DATA_SET_ID', 'eq', ['SLN-L-LMAG-3-MAG-TS-V1.0']),
        ('@name', 'eq', ['TABLE']),
    ]),
    ('block', [
        ('DATA_SET_ID', 'has', 'SLN-L-RISE-5-TRAJ-'),
        ('@name', 'eq', ['TABLE']),
    ]),
    ('trivial_case', [
        ('INSTRUMENT_ID', 'eq', ['APXS']),
        ('@name', 'has', 'ERROR_CONTROL_TABLE'),
    ]),
    ('trivial_case', [
        ('INSTRUMENT_NAME', 'eq', ['TRIAXIAL FLUXGATE MAGNETOMETER']),
        ('@name', 'eq', ['TABLE']),
        ('DATA_SET_ID', 'has', '-EDR-'),
    ]),
    ('trivial_case', [
        ('INSTRUMENT_NAME', 'eq', ['CHEMISTRY CAMERA REMOTE MICRO-IMAGER']),
        ('@name', 'eq', ['IMAGE_REPLY_TABLE']),
    ]),
    ('trivial_case', [
        ('DATA_SET_ID', 'startswith', ['ODY-M-THM-5']),
        ('@name', 'eq', ['HEADER', 'HISTORY']),
    ]),
    ('trivial_case', [
        ('DATA_SET_ID', 'eq', ['CO-CAL-ISS-2-V1.0']),
        ('@name', 'eq', ['TELEMETRY_TABLE', 'LINE_PREFIX_TABLE']),
        ('FILE_RECORDS', 'eq', [1025]),
    ]),
    ('trivial_case', [
        ('SPACECRAFT_NAME', 'eq', ['MAGELLAN']),
        ('@name', 'eq', ['TABLE']),
    ]),
    ('trivial_case', [
        ('DATA_SET_ID', 'has', 'GO-A-SSI-3-'),
        ('DATA_SET_ID', 'has', '-CALIMAGES-V1.0'),
        ('PRODUCT_ID', 'has', 'QUB'),
        ('@name', 'eq', ['HEADER']),
    ]),
    ('trivial_case', [
        ('INSTRUMENT_ID', 'eq', ['CHEMIN']),
        ('@name', 'eq', ['HEADER']),
    ]),
    ('trivial_case', [
        ('DATA_SET_ID', 'has', 'MSL-M-SAM-'),
        ('@name', 'has', 'FILE'),
    ]),
    ('trivial_case', [
        ('INSTRUMENT_ID', 'eq', ['NIMS']),
        ('SPACECRAFT_NAME', 'eq', ['GALILEO_ORBITER']),
        ('@name', 'eq', ['SAMPLE_SPECTRUM_QUBE']),
    ]),
    ('trivial_case', [
        ('DATA_SET_ID', 'eq', ['BUGLAB-L-BUG-4-APOLLO-SAMPLES-V1.0']),
        ('@name', 'eq', ['HEADER']),
    ]),
    ('trivial_case', [
        ('DATA_SET_ID', 'eq', ['MSL-M-APXS-4/5-RDR-V1.0']),
        ('@name', 'eq', ['HEADER']),
    ]),
    ('trivial_case', [
        ('INSTRUMENT_HOST_NAME', 'eq', ['VENUS EXPRESS']),
        ('INSTRUMENT_ID', 'eq', ['VRA']),
        ('PRODUCT_ID', 'has', '1A_TNF'),
    ]),
    ('trivial_case', [
        ('INSTRUMENT_HOST_NAME', 'eq', ['VENUS EXPRESS']),
        ('INSTRUMENT_ID', 'eq', ['VIRTIS']),
        ('@name', 'eq', ['HISTORY']),
    ]),
    ('trivial_case', [
        ('DATA_SET_ID', 'has', 'MRO-M-MCS-5-DDR'),
        ('DATA_SET_ID', 'has', 'V1.0'),
    ]),
    ('trivial_case', [
        ('DATA_SET_ID', 'eq', ['SLN-L-PACE-3-PBF1-V3.0']),
        ('@name', 'eq', ['TIME_SERIES']),
    ]),
    ('trivial_case', [
        ('DATA_SET_ID', 'has', 'SLN-L-SP'),
        ('@name', 'has', 'L2D_RESULT_ARRAY'),
    ]),
    ('trivial_case', [
        ('DATA_SET_ID', 'eq', ['SLN-L-TC-4-DEM-ORTHO-V1.0']),
        ('@name', 'eq', ['QA_FILENAME']),
    ]),
    ('trivial_case', [
        ('DATA_SET_ID', 'eq', ['SLN-L-GRS-3-ENG-SPECTRUM-V1.0']),
        ('@name', 'eq', ['TABLE']),
    ]),
    ('trivial_case', [
        ('SPACECRAFT_NAME', 'eq', ['CE1']),
        ('@name', 'has', 'IMAGE_PREFIX'),
    ]),
    ('image_constants', [
        ('INSTRUMENT_ID', 'eq', ['CRISM']),
    ]),
    ('fn', [
        ('DATA_SET_ID', 'eq', ['CLEM1-L-RSS-5-BSR-V1.0']),
        ('@name', 'eq', ['HEADER_TABLE', 'DATA_TABLE']),
    ]),
    ('fn', [
        ('SPACECRAFT_NAME', 'eq', ['MAGELLAN']),
        ('@name', 'eq', ['TABLE']),
    ]),
    ('fn', [
        ('DATA_SET_ID', 'startswith', ['CO-D-CDA']),
        ('@name', 'eq', ['TABLE']),
    ]),
    ('fn', [
        ('INSTRUMENT_ID', 'eq', ['THEMIS']),
    ]),
    ('fn', [
        ('DATA_SET_ID', 'eq', ['NH-P-PEPSSI-4-PLASMA-V1.0', 'NH-X-SWAP-5-DERIVED-SOLARWIND-V1.0', 'NH-P/PSA-LORRI/ALICE/REX-5-ATMOS-V1.0']),
        ('@name', 'eq', ['SPREADSHEET']),
    ]),
    ('fn', [
        ('SPACECRAFT_NAME', 'eq', ['GALILEO ORBITER']),
        ('INSTRUMENT_NAME', 'eq', ['SOLID_STATE_IMAGING']),
        ('@name', 'eq', ['IMAGE_LINE_PREFIX_TABLE']),
    ]),
    ('fn', [
        ('DATA_SET_ID', 'eq', ['VG2-SR/UR/NR-PPS-2/4-OCC-V1.0']),
        ('PRODUCT_TYPE', 'eq', ['JITTER']),
        ('@name', 'eq', ['SERIES']),
    ]),
    ('fn', [
        ('INSTRUMENT_HOST_NAME', 'eq', ['MARS SCIENCE LABORATORY']),
        ('INSTRUMENT_ID', 'eq', ['MAHLI', 'MAST_RIGHT', 'MAST_LEFT', 'MARDI']),
        ('DATA_SET_ID', 'has', 'EDR'),
        ('@name', 'eq', ['IMAGE']),
    ]),
    ('qube_band_storage', [
        ('INSTRUMENT_HOST_NAME', 'eq', ['CASSINI_ORBITER']),
    ]),
    ('fits_start_byte', [
        ('INSTRUMENT_HOST_NAME', 'eq', ['DAWN']),
        ('DATA_SET_ID', 'has', 'FC2'),
        ('@name', 'eq', ['HISTORY']),
    ]),
    ('fits_start_byte', [
        ('DATA_SET_ID', 'startswith', ['HST-S-WFPC2-3-RPX']),
        ('@name', 'has', 'IMAGE'),
    ]),
    ('fits_start_byte', [
        ('INSTRUMENT_ID', 'eq', ['HRIV']),
        ('PRODUCT_TYPE', 'eq', ['RADIANCE_DECONVOLVED']),
        ('@name', 'startswith', ['EXT_MASK']),
    ]),
    ('fits_start_byte', [
        ('DATA_SET_ID', 'startswith', ['MSGR-H-MDIS-6-CAL']),
    ]),
    ('fits_start_byte', [
        ('DATA_SET_ID', 'eq', ['MSSSO-J-CASPIR-3-RDR-SL9-STDS-V1.0']),
    ]),
    ('fits_start_byte', [
        ('DATA_SET_ID', 'has', 'MEX-M-VMC-3-RDR'),
    ]),
    ('fits_start_byte', [
        ('DATA_SET_ID', 'eq', ['LRO-L-LAMP-2-EDR-V1.0']),
        ('@name', 'has', 'TABLE'),
    ]),
    ('fits_start_byte', [
        ('DATA_SET_ID', 'eq', ['LRO-L-LAMP-3-RDR-V1.0']),
    ]),
    ('fits_start_byte', [
        ('PRODUCT_TYPE', 'eq', ['RDR']),
        ('DATA_SET_ID', 'has', 'JNO-J-UVS-3-RDR-'),
    ]),
    ('fits_start_byte', [
        ('PRODUCT_TYPE', 'eq', ['EDR']),
        ('DATA_SET_ID', 'has', 'JNO-J-UVS-2-EDR-'),
    ]),
    ('objects', [
        ('INSTRUMENT_HOST_NAME', 'eq', ['MARS SCIENCE LABORATORY']),
        ('INSTRUMENT_ID', 'eq', ['MAHLI', 'MAST_RIGHT', 'MAST_LEFT', 'MARDI']),
        ('DATA_SET_ID', 'has', 'EDR'),
    ]),
    ('objects', [
        ('SPACECRAFT_NAME', 'eq', ["Chang'E-3 Rover"]),
        ('PRODUCT_ID', 'has', 'CE3_BMYK_VNIS-CC_SCI_N'),
        ('PRODUCT_ID', 'has', '.2A'),
    ]),
    ('objects', [
        ('SPACECRAFT_NAME', 'eq', ["Chang'E-3 Rover"]),
        ('PRODUCT_ID', 'has', 'CE3_BMYK_VNIS-SC_SCI_N_'),
        ('PRODUCT_ID', 'has', '.2A'),
    ]),
    ('objects', [
        ('SPACECRAFT_NAME', 'eq', ["Chang'E-3 Rover"]),
        ('PRODUCT_ID', 'has', 'CE3_BMYK_VNIS-SD_SCI_N_'),
        ('PRODUCT_ID', 'has', '.2A'),
    ]),
    ('compressed_file_reader', [
        ('INSTRUMENT_HOST_NAME', 'eq', ['MARS SCIENCE LABORATORY']),
        ('INSTRUMENT_ID', 'eq', ['MAHLI', 'MAST_RIGHT', 'MAST_LEFT', 'MARDI']),
        ('DATA_SET_ID', 'has', 'EDR'),
    ]),
    ('compressed_file_reader', [
        ('SPACECRAFT_NAME', 'eq', ['MARS_GLOBAL_SURVEYOR']),
        ('INSTRUMENT_ID', 'eq', ['MOC-NA', 'MOC-WA']),
        ('FILE_NAME', 'has', 'IMQ'),
    ]),
    ('pointer_dispatch', [
        ('DATA_SET_ID', 'has', 'SLN-L-SP'),
        ('@name', 'has', 'SPECTRUM'),
    ]),
    ('pointer_dispatch', [
        ('DATA_SET_ID', 'has', 'SLN-L-SP'),
        ('@name', 'has', 'ANCILLARY_AND_SUPPLEMENT_DATA'),
    ]),
]
