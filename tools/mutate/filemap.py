MAP = {
 'StringBuilder.cpp': ['C01', 'C02', 'C03', 'C04', 'C05'], 'StringBuilder.h': ['C01', 'C03'],
 'RingBuffer.h': ['C07'], 'LightLinkedList.h': ['C08'], 'PriorityQueue.h': ['C09'], 'ElementPool.h': ['C10'], 'FiniteStateMachine.h': ['C11'],
 'AsyncSequencer.cpp': ['C12'], 'AsyncSequencer.h': ['C12'], 'TimerTools/C3PScheduler.cpp': ['C13'], 'TimerTools/C3PScheduler.h': ['C13'],
 'TimerTools/TimerTools.h': ['C14'], 'TimerTools/C3PTrace.cpp': ['C43'], 'TimerTools/C3PTrace.h': ['C43'],
 'uuid.cpp': ['C15'], 'EnumWrapper.h': ['C16'], 'FlagContainer.h': ['C16'], 'CppPotpourri.cpp': ['C05', 'C41', 'C15'], 'EnumeratedTypeCodes.cpp': ['C16', 'C17'],
 'C3PValue/C3PType.cpp': ['C17', 'C18', 'C22'], 'C3PValue/C3PType.h': ['C17', 'C18'], 'C3PValue/C3PValue.cpp': ['C17', 'C18', 'C21', 'C19'], 'C3PValue/C3PValue.h': ['C17', 'C21'],
 'C3PValue/KeyValuePair.cpp': ['C21', 'C18'], 'C3PValue/KeyValuePair.h': ['C21'], 'cbor-cpp/cbor.cpp': ['C20', 'C19', 'C18'], 'cbor-cpp/cbor.h': ['C20'],
 'TimeSeries/TimeSeries.h': ['C26', 'C22'], 'TimeSeries/TimeSeries.cpp': ['C26', 'C22'], 'TimeSeries/SensorFilter.h': ['C27'], 'TimeSeries/SensorFilter.cpp': ['C27'],
 'MultiStringSearch.cpp': ['C25'], 'Console/C3PConsole.cpp': ['C28'], 'Console/C3PConsole.h': ['C28'],
 'M2MLink/M2MMsg.cpp': ['C29', 'C30'], 'M2MLink/M2MMsgHdr.cpp': ['C29'], 'M2MLink/M2MLink.cpp': ['C30', 'C31', 'C33'], 'M2MLink/M2MLink.h': ['C30', 'C31'],
 'Identity/Identity.cpp': ['C33'], 'Identity/Identity.h': ['C33'], 'Identity/IdentityUUID.cpp': ['C33'],
 'Storage/SimpleDataRecord.cpp': ['C34'], 'Storage/RecordTypes/ConfRecord.h': ['C34'], 'Storage/RecordTypes/ConfRecord.cpp': ['C34'],
 'Pipes/TripleAxisPipe/TripleAxisPipe.cpp': ['C44'], 'Pipes/TripleAxisPipe/TripleAxisPipe.h': ['C44'], 'Pipes/TripleAxisPipe/TripleAxisCompass.cpp': ['C44'], 'Pipes/TripleAxisPipe/TripleAxisCompass.h': ['C44'], 'Pipes/TripleAxisPipe/TripleAxisOrientation.cpp': ['C44'],
 'Image/Image.cpp': ['C35'], 'Image/Image.h': ['C35'], 'Image/ImageUtils/ImageScalers.cpp': ['C36'], 'Image/ImageUtils/ImageUtils.cpp': ['C36'], 'Image/ImageUtils/ImageGraph.cpp': ['C36'], 'Image/ImageUtils/ImageGraph.h': ['C36'], 'BusQueue/BusQueue.h': ['C37', 'C49'], 'BusQueue/BusQueue.cpp': ['C37'], 'BusQueue/SPIAdapter.cpp': ['C37', 'C49'], 'BusQueue/I2CAdapter.cpp': ['C37', 'C49'], 'BusQueue/SPIBusOp.cpp': ['C37'], 'BusQueue/I2CBusOp.cpp': ['C37'],
 'BusQueue/UARTAdapter.cpp': ['C42'], 'C3PLogger.h': ['C38'], 'AbstractPlatform.cpp': ['C49', 'C38', 'C41', 'C15', 'C14'], 'Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp': ['C39'],
 'Vector3.h': ['C40'], 'Quaternion.cpp': ['C40'], 
 'Pipes/BufferAccepter/Base64/C3P_B64.cpp': ['C23'], 'Pipes/BufferAccepter/BufferAccepter.cpp': ['C24', 'C23'], 'Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp': ['C24'], 'Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.h': ['C24'], 'Pipes/BufferAccepter/TestFixtures/CoDecTestFixtures.cpp': ['C24'],
 'TimerTools/StopWatch.cpp': ['C14', 'C22'], 'Storage/Storage.cpp': ['C34'], 'BusQueue/I2CDevice.cpp': ['C37'], 'M2MLink/M2MService.cpp': ['C31'], 'Pipes/BufferAccepter/GPSWrapper/GPSWrapper.h': ['C39'], 'BusQueue/UARTAdapter.h': ['C42'], 'MultiStringSearch.h': ['C25'], 'CppPotpourri.h': ['C41'], 'Image/GfxUI.h': ['C45'], 'Image/GfxUI/GfxUI.cpp': ['C45'], 'Image/GfxUI/GfxUISlider.cpp': ['C45'], 'Image/GfxUI/GfxUITabBar.cpp': ['C45'], 'Image/GfxUI/GfxUIButton.cpp': ['C45'], 'Image/ImageUtils/BlobPlotter.cpp': ['C46'], 'Image/ImageUtils/BlobPlotter.h': ['C46'],
 'Image/GfxUI/GfxUITextArea.cpp': ['C47'], 'Image/GfxUI/GfxUIChecklist.cpp': ['C47'], 'Image/GfxUI/GfxUIStopWatch.cpp': ['C47'], 'Image/GfxUI/GfxUIMagnifier.cpp': ['C47'], 'Image/GfxUI/GfxUIC3PValue.cpp': ['C47', 'C48'], 'Image/GfxUI/GfxUIKeyValuePair.cpp': ['C48'], 'Image/GfxUI/GfxUIKeyValuePair.h': ['C48'], 'Image/GfxUI/GfxUIMLink.cpp': ['C48'], 'Image/GfxUI/GfxUIIdentity.cpp': ['C48'], 'Image/GfxUI/GfxUIC3PScheduler.cpp': ['C48'], 'Image/GfxUI/GfxUIGroup.cpp': ['C45'], 'Image/GfxUI/GfxUIBlobRender.cpp': ['C50'], 'Image/GfxUI/GfxUIKit.h': ['C47', 'C45', 'C48']
}
