PROP.update({"the metadata of an array follows": "P19", "get_multiple_unique_folder_names": "P19", "get_highest_numbered_file": "P19",
 "compare_soundfields plots": "P25", "sound field images can": "P25", "legend has one entry": "P28", "smooth accepts a signal": "P21", "spectrum can be exported": "P28", "sine and bandlimited": "P09", "the metadata of multi-sine": "P19"})
PROP.update({"directional sources are refused": "P29", "Gold sequences of an order": "P09", "the Gold sequences of order 10": "P09", "the offset angle of a sunflower": "P22", "the moving arrays of a session": "P12"})
FINDINGS.append(("P27", "extra_delay=0", "impulse responses for reverb \"ism\" are NaN at the arrivals with extra_delay = 0 (the default): "
 "pyroomacoustics' fractional delay filter of length 1 is not a number. A value of 1 instead would delay all responses by a sample, "
 "and the existing tests rely on the present timing."))
PROP.update({"a list is accepted as the dim": "P03", "user-supplied paths of an array coll": "P13", "several export functions can be": "P05", "keys of attribute expr": "P24",
 "changing the power of bandlimited": "P08", "the first samples of autocorr": "P09", "sources without num_channels": "P19", "moving microphones can be updated": "P10",
 "metadata that contain arrays": "P19", "no processor metadata are": "P19", "the measured reverberation": "P27", "event counters made of the same": "P16"})
PROP.update({"every other point along the rect": "P22"})
